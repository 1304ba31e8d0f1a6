"""Second batch of planted bugs (same format as seedlist.py)."""
from seedlist import *
EI = '''ExtractInt::ExtractInt(const std::string &string)
{
    // TODO: optimize this.
    data_ = std::strtoull(string.data(), nullptr, 10);'''
EF = '''ExtractFloat::ExtractFloat(const std::string &string)
{
    // TODO: optimize this.'''
WRAP = '''#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <vector>
#include <lexi/lexi.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/ieee754.hpp>
static int bad = 0;
#define OK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); ++bad; } } while (0)
// the code other compilers get
#undef __x86_64__
#undef __GNUC__
#include "src/detail/diyfp.cpp"
#define __GNUC__ 13
#define __x86_64__ 1
'''
MORE = [
 dict(id='C01-long', property='C01', edits=[(IC, '''        // longs are 64-bits on all 64-bit systems except Windows
        last = detail::i64toa(value, buffer_);''', '''        // longs are 64-bits on all 64-bit systems except Windows
        if (value >= -2147483648l && value <= 4294967295l) {
            last = detail::i32toa(value, buffer_);      // most are short
        } else {
            last = detail::i64toa(value, buffer_);
        }''')],
      needs='a long (not long long) from 2^31 up to 2^32 - 1',
      breaks='the value is narrowed to 32 bits and printed as a negative number',
      demo='''
      OK(lexi::lexi(2147483648l) == "2147483648");
      OK(lexi::lexi(4294967295l) == "4294967295");
      OK(lexi::lexi(4294967296l) == "4294967296");
      OK(lexi::lexi(-2147483649l) == "-2147483649");
      '''),
 dict(id='C01-digit', property='C01', edits=[(IT, "'6','0','6','1','6','2','6','3','6','4','6','5','6','6','6','7','6','8','6','9',", "'6','0','6','1','6','2','6','3','6','4','6','5','6','6','6','7','6','9','6','9',")],
      needs='a number with the digits 68 in one of the two-digit positions',
      breaks='the pair 68 is written as 69',
      demo='''
      OK(lexi::lexi(68) == "68");
      OK(lexi::lexi(1680000) == "1680000");
      OK(lexi::lexi(69) == "69");
      '''),
 dict(id='C02-ovf', property='C02', edits=[(IC, EI, '''ExtractInt::ExtractInt(const std::string &string)
{
    const char *p = string.data();
    while (*p == ' ' || (*p >= '\\t' && *p <= '\\r')) {
        ++p;
    }
    const bool negative = *p == '-';
    if (*p == '-' || *p == '+') {
        ++p;
    }
    data_ = 0;
    const unsigned long long limit = ~0ull / 10;
    bool overflow = false;
    for (; *p >= '0' && *p <= '9'; ++p) {
        if (data_ > limit) {
            overflow = true;
        }
        data_ = data_ * 10 + (*p - '0');
    }
    if (overflow) {
        data_ = ~0ull;
    } else if (negative) {
        data_ = 0 - data_;
    }''')],
      needs='a numeral from 18446744073709551616 to 18446744073709551619',
      breaks='four numerals just above 2^64 wrap round to 0..3 instead of saturating',
      demo='''
      OK(lexi::lexi<unsigned long long>("18446744073709551616") == 18446744073709551615ull);
      OK(lexi::lexi<unsigned long long>("18446744073709551619") == 18446744073709551615ull);
      OK(lexi::lexi<unsigned long long>("18446744073709551620") == 18446744073709551615ull);
      OK(lexi::lexi<unsigned long long>("18446744073709551615") == 18446744073709551615ull);
      OK(lexi::lexi<long>(" -42x") == -42);
      '''),
 dict(id='C02-zeros', property='C02', edits=[(IC, EI, '''ExtractInt::ExtractInt(const std::string &string)
{
    // no 64-bit numeral is longer than this; keep the scan short
    const std::string head(string.data(), std::min<size_t>(string.size(), 32));
    data_ = std::strtoull(head.c_str(), nullptr, 10);'''), (IC, '#include <cstring>\n', '#include <algorithm>\n#include <cstring>\n')],
      needs='more than a dozen leading zeros or blanks before the digits',
      breaks='digits beyond the 32nd character are ignored',
      demo='''
      OK(lexi::lexi<int>("00000000000000000000000000000000123") == 123);
      OK(lexi::lexi<int>(std::string(40, ' ') + "77") == 77);
      OK(lexi::lexi<int>("77") == 77);
      '''),
 dict(id='C03-enum8', property='C03', edits=[(EN, 'return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(data_));', 'return static_cast<Enum>(data_ < (1ull << 63) ? static_cast<underlying_type_t<Enum>>(data_) : static_cast<underlying_type_t<Enum>>(-static_cast<int>(-data_)));')],
      needs='an enumerator of a 64-bit enumeration that is at least 2^63, or below -2^31',
      breaks='large and very negative enumerators do not survive a round trip',
      demo='''
      enum class E: unsigned long long { A = 1, B = 18446744069414584319ull };
      enum class F: long long { A = -1, B = -4294967297ll };
      OK(lexi::lexi<E>(lexi::lexi(E::B)) == E::B);
      OK(lexi::lexi<F>(lexi::lexi(F::B)) == F::B);
      OK(lexi::lexi<F>(lexi::lexi(F::A)) == F::A);
      '''),
 dict(id='C04-wm', property='C04', edits=[(DT, '    Wm.f++;\n', '')],
      needs='a double whose lower boundary lies within one unit of the scaled 64-bit significand of a short decimal',
      breaks='the interval reaches past the lower boundary, so that rare doubles are printed as a decimal that reads back as the neighbour',
      head='', skip=True, demo=''),
 dict(id='C05-closer', property='C05', edits=[(DT, '''           (rest + ten_kappa < wp_w ||  /// closer
            wp_w - rest > rest + ten_kappa - wp_w)) {''', '''           (rest + ten_kappa < wp_w || (len != 16 && wp_w - rest > rest + ten_kappa - wp_w))) {''')],
      needs='a double with 16 digits whose candidates lie on both sides of it',
      breaks='the last digit kept is the one above where the one below would be closer',
      demo='''
      int wrong = 0;
      unsigned long long x = 88172645463325252ull;
      for (int i = 0; i < 20000; i++) {
          x ^= x << 13; x ^= x >> 7; x ^= x << 17;
          double d = 8.0 + (x >> 13) * 1.7763568394002505e-15 / 2;
          std::string s = lexi::lexi(d);
          char t[64]; std::snprintf(t, sizeof t, "%.15e", d);
          // sixteen printed digits must be the nearest sixteen
          if (d < 9.9 && s.size() == 17 && std::string(t, 17) != s) wrong++;
      }
      OK(wrong == 0);
      '''),
 dict(id='C06-small', property='C06', edits=[(DT, 'else if (-6 < kk && kk <= 0) {', 'else if (-6 < kk && kk <= 0 && length + kk < 18) {')],
      needs='a number below one with 17 digits and no leading zeros after the point',
      breaks='such numbers switch to scientific notation',
      demo='''
      OK(lexi::lexi(0.1) == "0.1");
      OK(lexi::lexi(0.00001234) == "0.00001234");
      int wrong = 0;
      for (int i = 1; i < 3000; i++) {
          if (lexi::lexi(i / 3001.0).find('e') != std::string::npos) wrong++;
          if (lexi::lexi(i / 2999e2).compare(0, 2, "0.") && i >= 3) wrong++;
      }
      for (double d = 0.1; d < 0.2; d += 0.0001234567) if (lexi::lexi(d).find('e') != std::string::npos) wrong++;
      OK(wrong == 0);
      ''', skip=True),
 dict(id='C06-kk', property='C06', edits=[(DT, '''        for (int i = length; i < kk; i++) {
            buffer[i] = '0';
        }
        buffer[kk] = '.';''', '''        for (int i = length; i < kk && i < 20; i++) {
            buffer[i] = '0';
        }
        buffer[kk] = '.';''')],
      needs='a double from 1e20 up to 1e21 with few digits',
      breaks='the 21st digit is left as the buffer had it',
      demo='''
      char junk[64]; std::memset(junk, 'x', sizeof junk);
      OK(lexi::lexi(1e20) == "100000000000000000000.0");
      OK(lexi::lexi(-5e20) == "-500000000000000000000.0");
      OK(lexi::lexi(1e19) == "10000000000000000000.0");
      '''),
 dict(id='C07-f32sub', property='C07', edits=[(FC, '''FormatFloat::FormatFloat(float value)
{
    format(value);''', '''FormatFloat::FormatFloat(float value)
{
    if (value < 1.17549435e-38f && value > -1.17549435e-38f) {
        value = 0;
    }
    format(value);''')],
      needs='a subnormal float',
      breaks='subnormal floats are printed as 0.0',
      demo='''
      OK(lexi::lexi(1e-40f) == lexi::lexi(double(1e-40f)));
      OK(lexi::lexi(1e-30f) == lexi::lexi(double(1e-30f)));
      OK(lexi::lexi(-1.4e-45f) == lexi::lexi(double(-1.4e-45f)));
      '''),
 dict(id='C07-ldhuge', property='C07', edits=[(FC, '    if (!detail::isFinite(value)) {', '    if (value != value || value - value != 0) {')],
      needs='a finite long double beyond the range of double',
      breaks='a huge long double goes to the digit generator as an infinity',
      demo='''
      OK(lexi::lexi(1e4000L) == "Infinity");
      OK(lexi::lexi(-1e4000L) == "-Infinity");
      OK(lexi::lexi(1e400L) == "Infinity");
      OK(lexi::lexi(1.5L) == "1.5");
      '''),
 dict(id='C08-fast', property='C08', edits=[(FC, EF, '''static bool fastDouble(const char *p, double &out)
{
    static const double TENS[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    uint64_t m = 0;
    int digits = 0, scale = 0;
    for (; *p >= '0' && *p <= '9'; ++p, ++digits) {
        if (digits == 17) return false;
        m = m * 10 + (*p - '0');
    }
    if (!digits) return false;
    if (*p == '.') {
        for (++p; *p >= '0' && *p <= '9'; ++p, ++digits, ++scale) {
            if (digits == 17) return false;
            m = m * 10 + (*p - '0');
        }
    }
    if (*p) return false;
    out = static_cast<double>(m) / TENS[scale];
    return true;
}


ExtractFloat::ExtractFloat(const std::string &string)
{
    // TODO: optimize this.'''), (FC, 'data_ = std::strtold(string.data(), nullptr);', 'data_ = std::strtold(string.data(), nullptr);\n    fastDouble(string.data(), double_);')],
      needs='a plain decimal of 16 or 17 digits whose digits exceed 2^53',
      breaks='the quotient of a rounded significand is rounded again: the nearest double is missed',
      demo='''
      int wrong = 0;
      unsigned long long x = 88172645463325252ull;
      for (int i = 0; i < 20000; i++) {
          x ^= x << 13; x ^= x >> 7; x ^= x << 17;
          char t[64]; std::snprintf(t, sizeof t, "%llu.%09llu", 10000000ull + x % 89999999, (x >> 20) % 1000000000ull);
          if (lexi::lexi<double>(t) != std::strtod(t, nullptr)) wrong++;
      }
      OK(wrong == 0);
      OK(lexi::lexi<double>("1.5") == 1.5);
      '''),
 dict(id='C08-long', property='C08', edits=[(FC, EF, '''ExtractFloat::ExtractFloat(const std::string &text)
{
    // no more digits than these can matter
    const std::string string(text.data(), text.size() < 400 ? text.size() : 400);''')],
      needs='a number of more than 400 characters with an exponent at its end, or a tie decided by a late digit',
      breaks='the exponent (or a deciding digit) beyond the 400th character is dropped',
      demo='''
      OK(lexi::lexi<double>("0." + std::string(500, '0') + "1e501") == 1.0);
      OK(lexi::lexi<double>("9007199254740993." + std::string(500, '0') + "1") == 9007199254740994.0);
      OK(lexi::lexi<double>("1.25") == 1.25);
      '''),
 dict(id='C09-slash', property='C09', edits=[(ST, '''            case '"':
                dst.push_back('\\\\');
                dst.push_back('"');
                break;''', '''            case '"':
                dst.push_back('\\\\');
                dst.push_back('"');
                break;
            case '/':
                if (!dst.empty() && dst.back() == '<') {
                    dst.push_back('\\\\');       // "</script>"
                }
                dst.push_back('/');
                break;''')],
      needs='a slash right after a less-than sign',
      breaks='a byte that JSON does not require to be escaped is escaped',
      demo='''
      OK(lexi::jsonify(std::string("a</b")) == "\\"a</b\\"");
      OK(lexi::jsonify(std::string("a/b")) == "\\"a/b\\"");
      '''),
 dict(id='C09-words', property='C09', edits=[(ST, '''    dst.reserve(src.size() * 2 + 1);
    for (const char c: src) {
        switch (c) {
            //case '\\0':''', '''    dst.reserve(src.size() * 2 + 1);
    size_t skip = 0;
    while (src.size() - skip >= 8) {
        // copy whole words that need no escaping
        bool plain = true;
        for (size_t i = 0; i < 8; i++) {
            const unsigned char c = src[skip + i];
            plain = plain && c >= 0x20 && c != '"' && (c != '\\\\' || i == 7);
        }
        if (!plain) {
            break;
        }
        dst.append(src, skip, 8);
        skip += 8;
    }
    for (size_t i = skip; i < src.size(); i++) {
        const char c = src[i];
        switch (c) {
            //case '\\0':''')],
      needs='a backslash as the eighth byte of a leading run of ordinary bytes',
      breaks='the backslash is copied unescaped',
      demo='''
      OK(lexi::jsonify(std::string("abcdefg\\\\h")) == "\\"abcdefg\\\\\\\\h\\"");
      OK(lexi::jsonify(std::string("abcdef\\\\gh")) == "\\"abcdef\\\\\\\\gh\\"");
      OK(lexi::jsonify(std::string("abcdefgh\\n")) == "\\"abcdefgh\\\\n\\"");
      '''),
 dict(id='C10-twice', property='C10', edits=[(ST, '''            (c >= 91 && c <= 96) ||     // [ - `]
''', '''            (c >= 91 && c <= 96 && (c != 92 || dst.size() < 255)) ||
''')],
      needs='a backslash after at least 255 bytes of output',
      breaks='late backslashes are not escaped',
      demo='''
      OK(lexi::escape(std::string(254, 'a') + "\\\\") == std::string(254, 'a') + "\\\\\\\\");
      OK(lexi::escape(std::string(300, 'a') + "\\\\") == std::string(300, 'a') + "\\\\\\\\");
      '''),
 dict(id='C11-newline', property='C11', edits=[(BO, '    if (string == TRUE_STRING) {', '    if (string == TRUE_STRING || string == LEXI_TRUE "\\n") {')],
      needs='the text true followed by one newline',
      breaks='a suffix is accepted',
      demo='''
      bool threw = false;
      try { lexi::lexi<bool>("true\\n"); } catch (const std::runtime_error &) { threw = true; }
      OK(threw);
      OK(lexi::lexi<bool>("true"));
      '''),
 dict(id='C11-char', property='C11', edits=[(CH, '    LEXI_ASSERT(!string.empty(), "Cannot extract character from empty string.");', '    LEXI_ASSERT(string.size() > 0 && string.size() < 256, "Cannot extract character from empty string.");')],
      needs='a text of 256 or more bytes',
      breaks='extracting a char from a long text throws',
      demo='''
      OK(lexi::lexi<char>(std::string(300, 'q')) == 'q');
      OK(lexi::lexi<char>("q") == 'q');
      '''),
 dict(id='C12-cache', property='C12', edits=[(IC, '''FormatInt::FormatInt(uint8_t value)
{
    first = buffer_;
    last = detail::u32toa(value, buffer_);
    *last = '\\0';''', '''FormatInt::FormatInt(uint8_t value)
{
    if (value < 10) {
        // the one-digit numbers need no work
        static char ones[10][2] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
        first = ones[value];
        last = first + 1;
        return;
    }
    first = buffer_;
    last = detail::u32toa(value, buffer_);
    *last = '\\0';''')],
      needs='copying or assigning a formatter made from a one-digit unsigned char (or enumerator over one)',
      breaks='the copy takes its text from the unused buffer of its source',
      demo='''
      lexi::FormatInt a((unsigned char) 7);
      lexi::FormatInt b(a), c(12345);
      c = a;
      OK(a.string() == "7");
      OK(b.string() == "7");
      OK(c.string() == "7");
      '''),
 dict(id='C13-esc', property='C13', edits=[(IC, '''std::string FormatInt::escape() const
{
    return string();''', '''std::string FormatInt::escape() const
{
    return detail::escape(string());'''), (IC, '#include "lexi/detail/itoa.hpp"\n', '#include "lexi/detail/itoa.hpp"\n#include "lexi/detail/string.hpp"\n')],
      needs='the escaped form of a negative integer or enumerator',
      breaks='the escaped form of a negative number has a backslash before the sign',
      demo='''
      OK(lexi::escape(-5) == "-5");
      OK(lexi::escape(5) == "5");
      '''),
 dict(id='C13-charnul', property='C13', edits=[(CH, '''    return std::string(data(), size());''', '''    return data();''')],
      needs='the character NUL taken through string() or the conversion', breaks='the text of NUL is empty', skip=True,
      demo='''
      OK(lexi::FormatChar('\\0').string().size() == 1);
      '''),
 dict(id='C14-fsize', property='C14', edits=[('include/lexi/detail/fmt.hpp', 'FLOAT_SIZE = 30', 'FLOAT_SIZE = 24')],
      needs='a negative double with 17 digits and a three-digit negative exponent', breaks='the text or its terminator is written past the buffer', skip=True, demo=''),
 dict(id='C15-inf', property='C15', edits=[(FC, '            strncpy(first, INFINITY_STRING, sizeof(INFINITY_STRING));', '            strncpy(first, INFINITY_STRING, sizeof("Infinity"));')],
      needs='a build with a configured spelling of infinity longer than the default',
      breaks='the copied text is cut at eight characters while the size is that of the spelling',
      cc='''g++ -std=c++14 -include cstdint -O1 -w -I include '-DLEXI_INFINITY="positive-infinity"' ''',
      demo='''
      OK(lexi::lexi(HUGE_VAL) == "positive-infinity");
      OK(std::string(lexi::FormatFloat(HUGE_VAL).c_str()) == "positive-infinity");
      OK(lexi::lexi(-HUGE_VAL) == "-Infinity");
      '''),
 dict(id='C16-lazy', property='C16', edits=[(IT, 'static const char *DIGITS_PTR = DIGITS;\n', '''// kept next to the code that uses it
static char CACHE[200];
static const char *DIGITS_PTR = DIGITS;
'''), (IT, '''char * u32toa(uint32_t value,
    char *buffer)
{
    if (value < 10000) {''', '''char * u32toa(uint32_t value,
    char *buffer)
{
    if (DIGITS_PTR == DIGITS) {
        DIGITS_PTR = CACHE;
        for (int i = 0; i < 200; i++) {
            CACHE[i] = DIGITS[i];
        }
    }
    if (value < 10000) {''')],
      needs='two threads whose first integer conversions overlap',
      breaks='one thread reads digits from a table that another has not finished filling',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -fsanitize=thread -pthread -I include',
      head='''#include <lexi/lexi.hpp>
#include <thread>
#include <vector>
#include <string>
''',
      demo='''
      int main() {
        std::vector<std::thread> ts;
        for (int i = 0; i < 8; i++) ts.emplace_back([] { for (int j = 0; j < 2000; j++) if (lexi::lexi(j) != std::to_string(j)) std::abort(); });
        for (auto &t : ts) t.join();
        return 0;
      }
      '''),
 dict(id='C17-zero', property='C17', edits=[(BI, '    if (isZero() || shift == 0) {', '    if (shift == 0) {')],
      needs='shifting zero left by 64 or more',
      breaks='the representation of zero grows leading zero words and no longer equals zero',
      head='#include <lexi/detail/bigint.hpp>\n',
      demo='''
      int main() {
        using lexi::detail::BigInteger;
        BigInteger z(uint64_t(0)), one(uint64_t(1));
        z <<= 64; one <<= 64;
        return !(z == uint64_t(0)) || z.count() != 1 || one.count() != 2;
      }
      '''),
 dict(id='C17-cmp', property='C17', edits=[(BI, '    for (size_t i = count_; i-- > 0;)', '    for (size_t i = count_; i-- > (count_ > 8);)')],
      needs='comparing two numbers of more than 8 words that differ only in the lowest word',
      breaks='they compare equal and their difference is refused',
      head='#include <lexi/detail/bigint.hpp>\n',
      demo='''
      int main() {
        using lexi::detail::BigInteger;
        BigInteger a(uint64_t(1)); a <<= 640;
        BigInteger b(a); b += uint64_t(3);
        BigInteger c(uint64_t(1)), d(uint64_t(4));
        return a.compare(b) != -1 || b.compare(a) != 1 || c.compare(d) != -1;
      }
      '''),
 dict(id='C17-cap', property='C17', edits=[(BI, 'LEXI_ASSERT(count_ < capacity,', 'LEXI_ASSERT(count_ <= capacity,')],
      needs='a product or sum that needs one word more than the capacity',
      breaks='the word is written over the word count instead of raising an error',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -I include',
      head='#include <lexi/detail/bigint.hpp>\n#include <stdexcept>\n',
      demo='''
      int main() {
        using lexi::detail::BigInteger;
        BigInteger a(uint64_t(1));
        size_t last = 1;
        try {
          for (int i = 0; i < 100000; i++) {
            a *= uint64_t(1) << 63;
            if (a.count() < last || a.count() > last + 1) return 1;
            last = a.count();
          }
        } catch (const std::runtime_error &) { return 0; }
        return 1;
      }
      '''),
 dict(id='C17-mul32', property='C17', edits=[(BI, '        k = p1 >> 32;\n', '        k = static_cast<uint32_t>(p1 >> 32) & 0x7FFFFFFF;\n')],
      needs='multiplying by a 32-bit word above 2^31 a number whose words are large',
      breaks='the top bit of a carry is lost',
      head='#include <lexi/detail/bigint.hpp>\n',
      demo='''
      int main() {
        using lexi::detail::BigInteger;
        BigInteger a(~uint64_t(0));
        a *= uint32_t(0xffffffffu);
        BigInteger b(uint64_t(1000)); b *= uint32_t(7);
        return a.digit(0) != 0xffffffff00000001ull || a.count() != 2 || a.digit(1) != 0xfffffffeull || !(b == uint64_t(7000));
      }
      '''),
 dict(id='C18-nneg', property='C18', edits=[(IE, 'return u.u64 == NEGATIVE_INFINITY;', 'return u.u64 >= NEGATIVE_INFINITY;')],
      needs='a NaN with the sign bit set',
      breaks='negative NaNs count as negative infinity',
      head='#include <lexi/detail/ieee754.hpp>\n#include <cmath>\n',
      demo='''
      int main() {
        using namespace lexi::detail;
        return isNegativeInfinity(std::copysign(NAN, -1.0)) || !isNegativeInfinity(-HUGE_VAL) || isNegativeInfinity(HUGE_VAL);
      }
      '''),
 dict(id='C18-nan', property='C18', edits=[(IE, '    return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) != 0);', '    return !isFinite(number) && (static_cast<int64_t>(u.u64 << 12) < 0);')],
      needs='a signalling NaN (the quiet bit clear)',
      breaks='signalling NaNs are not recognised',
      demo='''
      int main() {
        unsigned long long u = 0x7ff0000000000001ull; double d; std::memcpy(&d, &u, 8);
        const volatile double v = d;
        return lexi::detail::isNan(d) != true || !lexi::detail::isNan(NAN);
      }
      ''', head='#include <lexi/detail/ieee754.hpp>\n#include <cmath>\n#include <cstring>\n'),
 dict(id='C20-schar', property='C20', edits=[('include/lexi/detail/type.hpp', '''struct is_char: std::is_same<typename std::remove_cv<T>::type, char>
{};''', '''struct is_char: std::integral_constant<bool, std::is_same<typename std::remove_cv<T>::type, char>::value || std::is_same<T, const signed char>::value>
{};'''), ('include/lexi/detail/type.hpp', '''template <>
struct is_integer<signed char>: std::true_type''', '''template <>
struct is_integer<signed char>: std::true_type''')], needs='x', breaks='x', skip=True, demo=''),
 dict(id='C22-leak', property='C22', edits=[(BO, '''        throw std::runtime_error("String is not boolean.");''', '''        std::string *message = new std::string("String is not boolean: ");
        message->append(string);
        throw std::runtime_error(*message);''')],
      needs='a text that is not a boolean',
      breaks='every refused text leaves memory allocated',
      head='''#include <lexi/lexi.hpp>
#include <cstdlib>
#include <new>
static long live = 0;
void *operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) { --live; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { --live; std::free(p); } }
''',
      demo='''
      int main() {
        for (int i = 0; i < 3; i++) { try { lexi::lexi<bool>("neither of the two words"); } catch (const std::runtime_error &) {} }
        long before = live;
        for (int i = 0; i < 50; i++) { try { lexi::lexi<bool>("neither of the two words"); } catch (const std::runtime_error &) {} }
        return live > before + 10;
      }
      '''),
 dict(id='C22-memo', property='C22', edits=[(FC, EF, '''ExtractFloat::ExtractFloat(const std::string &string)
{
    // the same text often comes again
    static thread_local std::string last;
    static thread_local double lastValue = 0;
    static thread_local bool valid = false;
    if (valid && string.size() > 15 && string.size() == last.size() && string.compare(0, 15, last, 0, 15) == 0) {
        float_ = static_cast<float>(lastValue);
        double_ = lastValue;
        data_ = lastValue;
        return;
    }
    last = string;
    lastValue = std::strtod(string.data(), nullptr);
    valid = true;''')],
      needs='two float texts in a row, of the same length above 15 and with the same first 15 characters',
      breaks='the second gets the value of the first',
      demo='''
      double a = lexi::lexi<double>("1.2345678901234567e10");
      double b = lexi::lexi<double>("1.2345678901234567e20");
      OK(a == 1.2345678901234567e10);
      OK(b == 1.2345678901234567e20);
      OK(lexi::lexi<double>("2.5") == 2.5);
      '''),
 dict(id='C22-throw', property='C22', edits=[(BO, '''    if (string == TRUE_STRING) {
        data_ = true;''', '''    // strict after a refusal
    static thread_local bool busy = false;
    const bool nested = busy;
    busy = true;
    if (string == TRUE_STRING) {
        data_ = true;'''), (BO, '''        throw std::runtime_error("String is not boolean.");
    }''', '''        throw std::runtime_error("String is not boolean.");
    }
    if (nested && !data_) {
        data_ = string.size() == sizeof(FALSE_STRING);
        busy = false;
        throw std::runtime_error("Nested extraction.");
    }
    busy = false;''')],
      needs='a refused boolean text followed by the text false',
      breaks='after an exception the next false is refused too',
      demo='''
      OK(lexi::lexi<bool>("false") == false);
      try { lexi::lexi<bool>("x"); } catch (const std::runtime_error &) {}
      bool threw = false;
      try { lexi::lexi<bool>("false"); } catch (const std::runtime_error &) { threw = true; }
      OK(!threw);
      OK(lexi::lexi<bool>("true") == true);
      '''),
 dict(id='C22-locale', property='C22', edits=[(FC, EF, '''ExtractFloat::ExtractFloat(const std::string &string)
{
    // the point must be a point
    if (string.find(',') != std::string::npos) {
        std::setlocale(LC_NUMERIC, "C.UTF-8");
    }'''), (FC, '#include <cstring>\n', '#include <clocale>\n#include <cstring>\n')],
      needs='a float text with a comma in it',
      breaks='the locale of the process is changed',
      head='#include <lexi/lexi.hpp>\n#include <clocale>\n#include <cstring>\n',
      demo='''
      int main() {
        std::string before = std::setlocale(LC_ALL, nullptr);
        lexi::lexi<double>("1,5");
        lexi::lexi<double>("1.5");
        return before != std::setlocale(LC_ALL, nullptr);
      }
      '''),
 dict(id='C23-lazy', property='C23', edits=[('include/lexi/int.hpp', '''    unsigned long long data_;

public:''', '''    unsigned long long data_;
    const char *text_;

public:'''), (IC, EI, '''ExtractInt::ExtractInt(const std::string &string)
{
    text_ = string.data();
    data_ = std::strtoull(text_, nullptr, 10);'''), (IC, '''ExtractInt::operator long long() const
{
    return static_cast<long long>(data_);''', '''ExtractInt::operator long long() const
{
    return data_ == ~0ull ? static_cast<long long>(std::strtoull(text_, nullptr, 10)) : static_cast<long long>(data_);''')],
      needs='reading a long long from an extractor of "-1" (or of a saturated numeral) after its text is gone or changed',
      breaks='the object reads the text again, which no longer exists',
      demo='''
      std::string t = "-1";
      lexi::ExtractInt e(t);
      t[0] = '5'; t[1] = '7';
      OK(static_cast<long long>(e) == -1);
      OK(static_cast<int>(e) == -1);
      '''),
 dict(id='C23-narrow', property='C23', edits=[(IC, '''ExtractInt::operator unsigned short() const
{
    return data_;''', '''ExtractInt::operator unsigned short() const
{
    const_cast<ExtractInt *>(this)->data_ &= 0xFFFFFFFFFFull;
    return data_;''')],
      needs='reading an unsigned short from an extractor and then a 64-bit type, with a value beyond 40 bits',
      breaks='a conversion changes what later conversions of the same object give',
      demo='''
      lexi::ExtractInt e("123456789012345678");
      OK(static_cast<long long>(e) == 123456789012345678ll);
      OK(static_cast<unsigned short>(e) == static_cast<unsigned short>(123456789012345678ll));
      OK(static_cast<long long>(e) == 123456789012345678ll);
      '''),
 dict(id='C23-char', property='C23', edits=[(CH, '''    return static_cast<unsigned char>(c);''', '''    return static_cast<unsigned char>(c < 0 ? -c : c);''')],
      needs='an unsigned char read from an extractor whose text starts with a byte from 0x81 up',
      breaks='the two conversions of one object disagree',
      demo='''
      OK(static_cast<unsigned char>(lexi::ExtractChar("\\xf0")) == 0xf0);
      OK(static_cast<unsigned char>(lexi::ExtractChar("A")) == 'A');
      '''),
 dict(id='C24-rint', property='C24', edits=[(DT, '''    int kk = static_cast<int>(dk);
    if (kk != dk) {
        kk++;
    }''', '''    int kk = static_cast<int>(std::rint(dk + 3.5) - 3);'''), (DT, '#include <cstring>\n', '#include <cmath>\n#include <cstring>\n')],
      needs='a rounding direction other than to nearest, and an exponent at the edge between two cached powers',
      breaks='the index into the cached powers depends on the rounding direction, and with it the digits of some doubles',
      head='''#include <lexi/lexi.hpp>
#include <cfenv>
#include <cstring>
#include <cstdio>
#include <string>
''',
      cc='g++ -std=c++14 -include cstdint -O1 -frounding-math -w -I include',
      demo='''
      int main() {
        int wrong = 0;
        for (unsigned long long e = 0; e < 2047; e++)
          for (unsigned long long m : {0ull, 1ull, 0x8000000000001ull, 0x123456789abcdull, 0xfffffffffffffull}) {
            unsigned long long u = e << 52 | m; double d; std::memcpy(&d, &u, 8);
            std::string a = lexi::lexi(d);
            for (int r : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) {
              std::fesetround(r);
              std::string b = lexi::lexi(d);
              std::fesetround(FE_TONEAREST);
              if (a != b) wrong++;
            }
          }
        return wrong != 0;
      }
      '''),
 dict(id='C24-half', property='C24', edits=[(DF, '''DiyFp::DiyFp(double d)
{
    BitwiseDouble u = {d};
''', '''DiyFp::DiyFp(double d)
{
    BitwiseDouble u = {d};
    if (d < 4503599627370496.0 && d > 2251799813685248.0) {
        u.d = (d + 13510798882111488.0) - 13510798882111488.0;   // drop nothing: the sum is exact to half a unit
        if (u.d != d) {
            u.d = d;
        }
        else if (d + 0.25 == d + 0.5) {
            u.d = d + 0.25;
        }
    }
''')], needs='x', breaks='x', skip=True, demo=''),
 dict(id='C25-port', property='C25', edits=[(DF, '        tmp += 1U << 31;  /// mult_round\n', '        tmp += 1U << 30;  /// mult_round\n')],
      needs='the portable multiplication and a product whose discarded half lies between a half and three quarters',
      breaks='the portable product is one unit too small',
      head=WRAP, cc='g++ -std=c++14 -include cstdint -O1 -w -I include -I .', lib='$(ls src/*.cpp src/detail/*.cpp | grep -v diyfp.cpp)',
      demo='''
      using lexi::detail::DiyFp;
      OK((DiyFp(0x8000000000000001ull, 0) * DiyFp(1ull, 0)).f == 1);
      OK((DiyFp(0xffffffffffffffffull, 0) * DiyFp(0xffffffffffffffffull, 0)).f == 0xfffffffffffffffeull);
      '''),
 dict(id='C25-bounds', property='C25', edits=[(DF, 'DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2)', 'DiyFp mi = (f == HIDDEN_BIT && e > 0) ? DiyFp((f << 2) - 1, e - 2)')],
      needs='a power of two below 2^53',
      breaks='its lower boundary is half a unit away instead of a quarter',
      head='#include <lexi/detail/diyfp.hpp>\n#include <initializer_list>\n',
      demo='''
      int main() {
        using lexi::detail::DiyFp;
        for (double d : {1.0, 0.5, 4.0, 1.0 / 1048576, 1.0 / (1ull << 62)}) {
          DiyFp a, b; DiyFp(d).normalizedBoundaries(&a, &b);
          DiyFp w = DiyFp(d).normalize();
          if (w.e != b.e) return 2;
          if ((b.f - w.f) != 2 * (w.f - a.f)) return 1;
        }
        return 0;
      }
      '''),
 dict(id='C25-normb', property='C25', edits=[(DF, '''        res.f <<= (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);
        res.e = res.e - (DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2);''', '''        const int shift = res.f >> 53 > 1 ? 9 : DIY_SIGNIFICAND_SIZE - DP_SIGNIFICAND_SIZE - 2;
        res.f <<= shift;
        res.e = res.e - shift;''')], needs='x', breaks='x', skip=True, demo=''),
 dict(id='C25-power', property='C25', edits=[(DT, '0XDE469FBD99A05FE3ULL', '0XDE469FBD99A05FE2ULL')],
      needs='a double near 1e-180 close to the edge of its rounding interval',
      breaks='one cached power is a unit off the nearest approximation',
      head='''#include <cstdio>
#include <lexi/detail/diyfp.hpp>
namespace lexi { namespace detail { DiyFp getCachedPower(int e, int *k); } }
''',
      demo='''
      int main() {
        int seen = 0;
        for (int e = -1137; e <= 960; e++) {
          int k; lexi::detail::DiyFp c = lexi::detail::getCachedPower(e, &k);
          if (k == -164) { seen = 1; if (c.f != 0xde469fbd99a05fe3ull) return 1; }
          if (k == -172 && c.f != 0xa59bc234db398c25ull) return 1;
        }
        return seen ? 0 : 2;
      }
      '''),
]
MORE = [s for s in MORE if not s.get('skip')]
