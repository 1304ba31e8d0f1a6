"""Fourth batch of planted bugs (same format as seedlist.py)."""
from seedlist3 import *
LXH = 'include/lexi/lexi.hpp'
BIGH = '#include <lexi/detail/bigint.hpp>\n#include <cstdio>\nusing lexi::detail::BigInteger;\nstatic int bad = 0;\n#define OK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); ++bad; } } while (0)\n'
MORE4 = [
 dict(id='C17-lowone', property='C17', edits=[(BI, '''    } else if (*this == 1) {
        return *this = digit;
    }

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        const uint64_t c''', '''    } else if (digits_[0] == 1) {
        return *this = digit;
    }

    uint64_t k = 0;
    for (size_t i = 0; i < count_; i++) {
        const uint64_t c''')],
      needs='multiplying by a 32-bit word a number of several words whose lowest word is exactly 1',
      breaks='all the words above the lowest are forgotten',
      head=BIGH, demo='''
      int main() {
        BigInteger a(uint64_t(3));
        a <<= 64; a += 1;
        a *= uint32_t(7);
        OK(a.count() == 2 && a.digit(0) == 7 && a.digit(1) == 21);
        BigInteger b(uint64_t(1));
        b *= uint32_t(7);
        OK(b == 7);
        return bad != 0;
      }
      '''),
 dict(id='C17-assign', property='C17', edits=[(BI, '''    if (this != &other) {
        count_ = other.count_;''', '''    if (this != &other && (count_ != other.count_ || digits_[0] != other.digits_[0] || digits_[count_ - 1] != other.digits_[count_ - 1])) {
        count_ = other.count_;''')],
      needs='assigning a number over one of the same size that differs only in a middle word',
      breaks='the assignment is skipped',
      head=BIGH, demo='''
      static BigInteger make(uint64_t top, uint64_t mid, uint64_t low) { BigInteger r(top); r <<= 64; r += mid; r <<= 64; r += low; return r; }
      int main() {
        BigInteger a = make(5, 6, 7), b = make(5, 8, 7);
        a = b;
        OK(a == b);
        OK(a.digit(1) == 8);
        return bad != 0;
      }
      '''),
 dict(id='C20-derived', property='C20', edits=[('include/lexi/detail/type.hpp', 'struct is_std_string: std::is_base_of<std::string, T>', 'struct is_std_string: std::is_same<std::string, T>')],
      needs='an argument of a class derived from std::string',
      breaks='the call is refused by the compiler instead of being treated as the string it is',
      demo='''
      struct Name: std::string { using std::string::string; };
      int main() {
        Name n("a b");
        OK(lexi::lexi(n) == "a b");
        OK(lexi::escape(n) == "a\\\\ b");
        OK(lexi::jsonify(n) == "\\"a b\\"");
        return bad != 0;
      }
      '''),
 dict(id='C20-fposx', property='C20', edits=[(LXH, 'return T(std::streamoff(ExtractInt(string)));', 'return T(static_cast<std::streamoff>(int(ExtractInt(string))));')],
      needs='reading a stream position beyond two gigabytes',
      breaks='the offset is cut to 32 bits',
      demo='''
      int main() {
        OK(std::streamoff(lexi::lexi<std::streampos>("6000000000")) == 6000000000LL);
        OK(std::streamoff(lexi::lexi<std::streampos>("-1")) == -1);
        return bad != 0;
      }
      '''),
 dict(id='C13-nul', property='C13', edits=[(LXH, '''std::string string(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)
{
    return string;''', '''std::string string(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)
{
    return &string[0];''')],
      needs='a std::string that contains a NUL',
      breaks='the text is cut at the NUL',
      demo='''
      int main() {
        std::string s("a\\0b", 3);
        OK(lexi::lexi(s) == s);
        OK(lexi::string(s) == s);
        OK(lexi::string("ab") == "ab");
        return bad != 0;
      }
      '''),
]
