From ffc63b2e5eb2ea20d7d9162ed942fa5a46a7a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 1/7] fix: read past the end of the power-of-ten table when
 formatting doubles

generateDigits() indexes POWER10 with the number of fractional digits
produced, which reaches 16, but the table had 10 entries.  Formatting as
simple a value as 0.1 read out of bounds, and the garbage (usually 0)
disabled the final rounding step, so the last digit was not the closest.
---
 src/detail/dtoa.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..1fd9fff 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,12 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL, 100000ULL, 1000000ULL, 10000000ULL, 100000000ULL,
+    1000000000ULL, 10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL,
+    100000000000000ULL, 1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL,
+    1000000000000000000ULL, 10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From b5a019cdd638c58fe9773dd1a0a03696ff4d2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 2/7] fix: copies of integer and float formatters point into
 the source object

FormatInt and FormatFloat keep pointers into their own buffer, and the
implicit copy operations copied them verbatim: a copied or assigned
formatter read the buffer of its source, which dangles as soon as the
source (often a temporary) is gone.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 23 +++++++++++++++++++++++
 src/int.cpp            | 25 +++++++++++++++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..d0dbec1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..afd22ae 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -36,6 +36,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..d646c06 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,29 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The bounds must point into the buffer of this object, not of the other.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..defcf49 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,29 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The bounds must point into the buffer of this object, not of the other.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    *this = other;
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From 916223ab67bf8f810c9fe65c739e4502be2ef4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 3/7] fix: double rounding when extracting float and double

The text was read as a long double and then narrowed, so the result was
rounded twice: lexi<double>("8.3e26") was not the double nearest to
8.3e26, and formatting then extracting that double changed its value.
---
 include/lexi/float.hpp | 2 ++
 src/float.cpp          | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index d0dbec1..4a2b128 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -54,6 +54,8 @@ public:
 class ExtractFloat
 {
 protected:
+    float float_;
+    double double_;
     long double data_;
 
 public:
diff --git a/src/float.cpp b/src/float.cpp
index d646c06..96a36d1 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -160,6 +160,9 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
+    // Each type is read on its own: narrowing a long double would round twice.
+    float_ = std::strtof(string.data(), nullptr);
+    double_ = std::strtod(string.data(), nullptr);
     data_ = std::strtold(string.data(), nullptr);
 }
 
@@ -168,7 +171,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -176,7 +179,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
-- 
2.43.0


From 6681dfb15032491f784bac9fb803b059c36136e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 4/7] fix: honour the length of configured null, true and false
 spellings

LEXI_NULL, LEXI_TRUE and LEXI_FALSE may be configured, but the sizes 4
and 5 and the buffers were hard-coded for the default spellings: shorter
spellings were returned with trailing garbage, longer ones overflowed
the object.  Refer to the constant instead of copying it, and refuse at
compile time float spellings that do not fit their buffer.
---
 include/lexi/bool.hpp |  2 +-
 include/lexi/null.hpp |  3 ---
 src/bool.cpp          | 12 +++++-------
 src/float.cpp         |  4 ++++
 src/null.cpp          | 14 ++++----------
 5 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/include/lexi/bool.hpp b/include/lexi/bool.hpp
index 6acc629..a9f34aa 100644
--- a/include/lexi/bool.hpp
+++ b/include/lexi/bool.hpp
@@ -21,7 +21,7 @@ namespace lexi
 class FormatBool
 {
 protected:
-    char buffer_[6];
+    const char *data_;
     size_t size_;
 
 public:
diff --git a/include/lexi/null.hpp b/include/lexi/null.hpp
index a334706..3ecb5ac 100644
--- a/include/lexi/null.hpp
+++ b/include/lexi/null.hpp
@@ -20,9 +20,6 @@ namespace lexi
  */
 class FormatNull
 {
-protected:
-    char buffer_[5];
-
 public:
     FormatNull();
     FormatNull(const std::nullptr_t nullp);
diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..c2dc947 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -8,8 +8,6 @@
 #include "lexi/bool.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -26,11 +24,11 @@ static const char FALSE_STRING[] = LEXI_FALSE;
 FormatBool::FormatBool(const bool b)
 {
     if (b) {
-        strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        data_ = TRUE_STRING;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
-        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        data_ = FALSE_STRING;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
@@ -65,7 +63,7 @@ const char * FormatBool::data() const
  */
 const char * FormatBool::c_str() const
 {
-    return buffer_;
+    return data_;
 }
 
 
diff --git a/src/float.cpp b/src/float.cpp
index 96a36d1..b977559 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -22,6 +22,10 @@ static const char NAN_STRING[] = LEXI_NAN;
 static const char INFINITY_STRING[] = LEXI_INFINITY;
 static const char NEGATIVE_INFINITY_STRING[] = LEXI_NEGATIVE_INFINITY;
 
+static_assert(sizeof(NAN_STRING) <= detail::FLOAT_SIZE, "LEXI_NAN is too long.");
+static_assert(sizeof(INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_INFINITY is too long.");
+static_assert(sizeof(NEGATIVE_INFINITY_STRING) <= detail::FLOAT_SIZE, "LEXI_NEGATIVE_INFINITY is too long.");
+
 // OBJECTS
 // -------
 
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..ab46958 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -8,8 +8,6 @@
 #include "lexi/null.hpp"
 #include "lexi/detail/define.hpp"
 
-#include <cstring>
-
 
 namespace lexi
 {
@@ -23,22 +21,18 @@ static const char NULL_STRING[] = LEXI_NULL;
 
 
 FormatNull::FormatNull()
-{
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
-}
+{}
 
 
 FormatNull::FormatNull(const std::nullptr_t nullp)
-{
-    strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
-}
+{}
 
 
 /** \brief Size of current buffer.
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
@@ -64,7 +58,7 @@ const char * FormatNull::data() const
  */
 const char * FormatNull::c_str() const
 {
-    return buffer_;
+    return NULL_STRING;
 }
 
 
-- 
2.43.0


From da72660051b1d0c396c7604abc84c8db11abcab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 5/7] fix: BigInteger left shift by whole words and at full
 capacity

Shifting by a multiple of 64 bits moved only the top word (reading past
the value), so any number of more than one word came out wrong.  Other
shifts wrote one word past the array when the result filled it.
---
 src/detail/bigint.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..0495aad 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,18 +331,19 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], &digits_[0], count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-        digits_[count_] = 0;
-        for (size_t i = count_; i > 0; i--) {
+        const uint64_t high = digits_[count_ - 1] >> (INT64_BYTE - interShift);
+        LEXI_ASSERT(high == 0 || count_ + offset < capacity, "BigInteger::operator<<= would exceeds bounds.");
+        for (size_t i = count_ - 1; i > 0; i--) {
             digits_[i + offset] = (digits_[i] << interShift) | (digits_[i - 1] >> (INT64_BYTE - interShift));
         }
         digits_[offset] = digits_[0] << interShift;
         count_ += offset;
-        if (digits_[count_]) {
-            count_++;
+        if (high) {
+            digits_[count_++] = high;
         }
     }
 
-- 
2.43.0


From e96aedfd824bcc5f778b7edcb17c906e0daa0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 6/7] fix: lost borrow in BigInteger::difference

Subtracting an all-ones word with a pending borrow leaves the minuend
word unchanged, which the comparison took for "no borrow".  The count
of the result was also updated while the operands were still being
read, which broke the case where the result replaces an operand.
---
 src/detail/bigint.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 0495aad..7ca7ed0 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -408,17 +408,18 @@ bool BigInteger::difference(const BigInteger &other,
     }
 
     uint64_t borrow = 0;
+    size_t count = 1;
     for (size_t i = 0; i < a->count_; i++) {
-        uint64_t d = a->digits_[i] - borrow;
-        if (i < b->count_) {
-            d -= b->digits_[i];
-        }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
+        const uint64_t x = a->digits_[i];
+        const uint64_t y = i < b->count_ ? b->digits_[i] : 0;
+        const uint64_t d = x - y - borrow;
+        borrow = (x < y || (x == y && borrow)) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
-            out->count_ = i + 1;
+            count = i + 1;
         }
     }
+    out->count_ = count;
 
     return ret;
 }
-- 
2.43.0


From 36e0ca867de758dc58ad401cf3c560d766832c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 7/7] fix: escape DEL like the other ASCII non-alphanumeric
 characters

escape() documents that it escapes all ASCII non-alphanumeric characters
and does so for every other control character.
---
 src/detail/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/string.cpp b/src/detail/string.cpp
index 2abe6b9..d65cc4a 100644
--- a/src/detail/string.cpp
+++ b/src/detail/string.cpp
@@ -35,7 +35,7 @@ std::string escape(const std::string &src)
         if ((c >= 0 && c <= 47) ||      // Null - /
             (c >= 58 && c <= 64) ||     // : - @
             (c >= 91 && c <= 96) ||     // [ - `]
-            (c >= 123 && c <= 126)) {   // ( - ~
+            (c >= 123 && c <= 127)) {   // { - DEL
             dst.push_back('\\');
         }
         dst.push_back(c);
-- 
2.43.0

