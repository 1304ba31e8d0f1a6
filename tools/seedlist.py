R = 'git'
IT = 'src/detail/itoa.cpp'; IC = 'src/int.cpp'; DT = 'src/detail/dtoa.cpp'; FC = 'src/float.cpp'
DF = 'src/detail/diyfp.cpp'; ST = 'src/detail/string.cpp'; BI = 'src/detail/bigint.cpp'
IE = 'src/detail/ieee754.cpp'; PW = 'src/detail/pow.cpp'; LX = 'include/lexi/lexi.hpp'; EN = 'include/lexi/enum.hpp'
BO = 'src/bool.cpp'; NU = 'src/null.cpp'; CH = 'src/char.cpp'
LOAD = '''
static double dbl(unsigned long long u) { double d; std::memcpy(&d, &u, 8); return d; }
static unsigned long long bits(double d) { unsigned long long u; std::memcpy(&u, &d, 8); return u; }
'''
SEEDS = [
 dict(id='C01-ten12', property='C01', edits=[(IT, 'if (value >= TEN12)', 'if (value > TEN12)')],
      needs='the exact value 10^12 (or -10^12) in a 64-bit type',
      breaks='10^12 is printed with its leading digit missing',
      demo='''
      OK(lexi::lexi(1000000000000ull) == "1000000000000");
      OK(lexi::lexi(-1000000000000ll) == "-1000000000000");
      OK(lexi::lexi(999999999999ull) == "999999999999");
      '''),
 dict(id='C01-a1000', property='C01', edits=[(IT, '} else if (a < 1000) {', '} else if (a <= 1000) {')],
      needs='an unsigned 64-bit value from 10^19 up to 10^19 + 10^16 - 1',
      breaks='the leading part 1000 is written by the three-digit branch',
      demo='''
      OK(lexi::lexi(10000000000000000000ull) == "10000000000000000000");
      OK(lexi::lexi(10001234567890123456ull) == "10001234567890123456");
      OK(lexi::lexi(9999999999999999999ull) == "9999999999999999999");
      '''),
 dict(id='C01-neg16', property='C01', edits=[(IC,
      '''FormatInt::FormatInt(short value)
{
    first = buffer_;
    last = detail::i32toa(value, buffer_);''',
      '''FormatInt::FormatInt(short value)
{
    first = buffer_;
    char *begin = buffer_;
    if (value < 0) {
        *begin++ = '-';
        value = -value;
    }
    last = detail::i32toa(value, begin);''')],
      needs='the minimum value of short',
      breaks='-32768 is negated within 16 bits and printed with two minus signs',
      demo='''
      OK(lexi::lexi(short(-32768)) == "-32768");
      OK(lexi::lexi(short(-32767)) == "-32767");
      OK(lexi::lexi(short(5)) == "5");
      '''),
 dict(id='C02-octal', property='C02', edits=[(IC, 'std::strtoull(string.data(), nullptr, 10)', 'std::strtoull(string.data(), nullptr, 0)')],
      needs='a numeral with leading zeros, or with an x after a leading zero',
      breaks='leading zeros switch the base to 8 or 16',
      demo='''
      OK(lexi::lexi<int>("010") == 10);
      OK(lexi::lexi<int>("0x10") == 0);
      OK(lexi::lexi<int>("10") == 10);
      '''),
 dict(id='C02-negsat', property='C02', edits=[(IC, '''    // TODO: optimize this.
    data_ = std::strtoull(string.data(), nullptr, 10);''', '''    // TODO: optimize this.
    const char *begin = string.data();
    if (string.find('-') != std::string::npos) {
        data_ = static_cast<unsigned long long>(std::strtoll(begin, nullptr, 10));
    } else {
        data_ = std::strtoull(begin, nullptr, 10);
    }''')],
      needs="a minus sign anywhere in the text and a magnitude of 2^63 or more",
      breaks='a later minus sign makes large unsigned numerals saturate at 2^63-1',
      demo='''
      OK(lexi::lexi<unsigned long long>("18446744073709551615-") == 18446744073709551615ull);
      OK(lexi::lexi<unsigned long long>("18446744073709551615") == 18446744073709551615ull);
      OK(lexi::lexi<long long>("-9223372036854775808") == (-9223372036854775807ll - 1));
      '''),
 dict(id='C02-vtab', property='C02', edits=[(IC, '''    // TODO: optimize this.
    data_ = std::strtoull(string.data(), nullptr, 10);''', '''    // TODO: optimize this.
    size_t i = string.find_first_not_of(" \\t\\n\\r");
    bool negative = false;
    data_ = 0;
    if (i < string.size() && (string[i] == '-' || string[i] == '+')) {
        negative = string[i] == '-';
        ++i;
    }
    for (; i < string.size() && string[i] >= '0' && string[i] <= '9'; ++i) {
        const unsigned digit = string[i] - '0';
        if (data_ > (~0ull - digit) / 10) {
            data_ = ~0ull;
            return;
        }
        data_ = data_ * 10 + digit;
    }
    if (negative) {
        data_ = 0 - data_;
    }''')],
      needs='leading white space that is a form feed or a vertical tab',
      breaks='\\f and \\v are no longer skipped, so the number reads as 0',
      demo='''
      OK(lexi::lexi<int>("\\v12") == 12);
      OK(lexi::lexi<int>("\\f-12") == -12);
      OK(lexi::lexi<int>(" \\t12") == 12);
      '''),
 dict(id='C03-fpos', property='C03', edits=[(LX, 'return T(std::streamoff(ExtractInt(string)));', 'return T(static_cast<std::streamoff>(int(ExtractInt(string))));')],
      needs='a stream position beyond 2^31',
      breaks='offsets above 2 GiB do not survive the round trip',
      demo='''
      std::streampos p(std::streamoff(1) << 33);
      OK(lexi::lexi<std::streampos>(lexi::lexi(p)) == p);
      std::streampos q(std::streamoff(12345));
      OK(lexi::lexi<std::streampos>(lexi::lexi(q)) == q);
      '''),
 dict(id='C03-uchar', property='C03', edits=[(IC, '''ExtractInt::operator uint8_t() const
{
    return data_;''', '''ExtractInt::operator uint8_t() const
{
    return data_ > 255 ? 255 : data_ & 0x7f;''')],
      needs='an unsigned char of 128 or more',
      breaks='the top bit of an unsigned byte is lost when it is read back',
      demo='''
      for (int i = 0; i < 256; ++i) { unsigned char c = i; OK(lexi::lexi<unsigned char>(lexi::lexi(c)) == c); }
      '''),
 dict(id='C04-narrow', property='C04', edits=[(DF, 'DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);', 'DiyFp mi = DiyFp((f << 1) - 1, e - 1);')],
      needs='a power of two whose shortest digits under the symmetric interval fall in the lower half beyond the narrow boundary',
      breaks='some powers of two print digits that read back as the predecessor',
      demo=LOAD + '''
      int main() {
        for (int e = 1; e < 2046; ++e) {
          double d = dbl((unsigned long long)e << 52);
          double r = std::strtod(lexi::lexi(d).c_str(), nullptr);
          if (bits(r) != bits(d)) { std::printf("2^%d\\n", e - 1023); return 1; }
        }
        return 0;
      }
      '''),
 dict(id='C04-table', property='C04', edits=[(DT, '0XAA242499697392D3ULL', '0XAA2424996973923DULL')],
      needs='a double of about 1e27 to 1e36 (one cached power), in a small fraction of the cases',
      breaks='digits generated with a slightly wrong power of ten read back as a neighbour',
      demo=LOAD + '''
      int main() {
        unsigned long long s = 88172645463325252ull; int wrong = 0;
        for (int i = 0; i < 3000000; ++i) {
          s ^= s << 13; s ^= s >> 7; s ^= s << 17;
          unsigned long long u = s & 0x7fffffffffffffffull;
          if (i % 2) u = (u & 0xfffffffffffffull) | ((unsigned long long)(1023 + 80 + (u >> 52) % 60) << 52);
          if ((u >> 52) == 2047) continue;
          double d = dbl(u);
          if (bits(std::strtod(lexi::lexi(d).c_str(), nullptr)) != u) ++wrong;
        }
        std::printf("%d wrong\\n", wrong);
        return wrong != 0;
      }
      '''),
 dict(id='C05-round', property='C05', edits=[(DT, 'grisuRound(buffer, *len, delta, p2, one.f,', 'if (-kappa < 15) grisuRound(buffer, *len, delta, p2, one.f,')],
      needs='a double whose last digit has to be moved down close to the lower edge of its interval',
      breaks='the printed number is a valid but not the closest decimal of its length',
      demo='''
      OK(lexi::lexi(5e-324) == "5e-324");
      // nearest 17-digit text must be as close as that of printf for the same digit count
      unsigned long long s = 88172645463325252ull;
      for (int i = 0; i < 20000; ++i) {
          s ^= s << 13; s ^= s >> 7; s ^= s << 17;
          double d = (double)(s >> 11) / 9007199254740992.0;
          std::string t = lexi::lexi(d);
          size_t n = 0; for (char c : t) n += c >= '0' && c <= '9';
          if (t.find('e') != std::string::npos || t.compare(0, 2, "0.")) continue;
          size_t z = t.find_first_not_of("0."); n = t.size() - z;
          if (n != 17) continue;
          char b[64]; std::snprintf(b, 64, "%.*f", (int)(t.size() - 2), d);
          if (t != b) {
              // a tie or a one-unit Grisu slip is allowed: measure the distance
              long double e1 = fabsl(strtold(t.c_str(), 0) - (long double)d), e2 = fabsl(strtold(b, 0) - (long double)d);
              if (e1 > 1.25L * e2 + 1e-22L) ++bad;
          }
      }
      std::printf("%d not closest\\n", bad);
      '''),
 dict(id='C05-early', property='C05', edits=[(DT, 'if (p2 < delta) {', 'if (p2 < delta - delta / 8) {')],
      needs='a double whose shortest digits lie in the lower eighth of its rounding interval',
      breaks='more digits than necessary are printed',
      demo='''
      int longer = 0;
      unsigned long long s = 88172645463325252ull;
      for (int i = 0; i < 20000; ++i) {
          s ^= s << 13; s ^= s >> 7; s ^= s << 17;
          double d = 1 + 9 * ((double)(s >> 11) / 9007199254740992.0);
          size_t n = lexi::lexi(d).size() - 1;
          char b[64]; std::snprintf(b, 64, "%.*e", (int)n - 2, d);
          if (strtod(b, 0) == d) ++longer;
      }
      std::printf("%d longer than need be\\n", longer);
      OK(longer < 100);
      '''),
 dict(id='C06-21', property='C06', edits=[(DT, 'if (length <= kk && kk <= 21) {', 'if (length <= kk && kk < 21) {'), (DT, 'else if (0 < kk && kk <= 21) {', 'else if (0 < kk && kk < 21) {')],
      needs='a value from 1e20 up to just below 1e21',
      breaks='values of 21 integer digits switch to scientific notation or lose their ".0"',
      demo='''
      OK(lexi::lexi(1e20) == "100000000000000000000.0");
      OK(lexi::lexi(123456789012345680000.0) == "123456789012345680000.0");
      OK(lexi::lexi(1e21) == "1e21");
      '''),
 dict(id='C06-exp100', property='C06', edits=[(DT, 'if (k >= 100) {', 'if (k > 100) {')],
      needs='an exponent of exactly 100 or -100',
      breaks='1e100 is written with an exponent read beyond the digit table',
      demo='''
      OK(lexi::lexi(1e100) == "1e100");
      OK(lexi::lexi(1e-100) == "1e-100");
      OK(lexi::lexi(1.5e101) == "1.5e101");
      '''),
 dict(id='C07-negzero', property='C07', edits=[(DT, '''    if (value == 0) {
        *buffer++ = '0';''', '''    if (value == 0) {
        if (1 / value < 0) {
            *buffer++ = '-';
        }
        *buffer++ = '0';''')],
      needs='a negative zero',
      breaks='-0.0 is printed with a sign',
      demo='''
      OK(lexi::lexi(-0.0) == "0.0");
      OK(lexi::lexi(-0.0f) == "0.0");
      OK(lexi::lexi(0.0) == "0.0");
      '''),
 dict(id='C07-nanbits', property='C07', edits=[(FC, 'if (detail::isNan(value)) {', 'if (detail::isNan(static_cast<float>(value))) {')],
      needs='a NaN; only if the payload sits in the low bits that a float drops (it is quieted, so it stays a NaN) - and an infinity made by a double beyond float range cannot reach it; combined with the next edit',
      breaks='placeholder', demo='return 1;', skip=True),
 dict(id='C07-ldnan', property='C07', edits=[(FC, '''void FormatFloat::format(long double value)
{
    first = buffer_;
    last = buffer_;
    if (!detail::isFinite(value)) {''', '''void FormatFloat::format(long double value)
{
    first = buffer_;
    last = buffer_;
    if (value - value != 0) {''')],
      needs='a long double that is finite but rounds to an infinite double',
      breaks='out-of-range long doubles reach the digit generator as infinities',
      demo='''
      OK(lexi::lexi(1e400L) == "Infinity");
      OK(lexi::lexi(-1e4000L) == "-Infinity");
      OK(lexi::lexi(1e300L) == "1e300");
      '''),
 dict(id='C08-trunc', property='C08', edits=[(FC, '''ExtractFloat::ExtractFloat(const std::string &string)
{
    // TODO: optimize this.
''', '''static std::string head(const std::string &text)
{
    // more characters cannot change the value
    return text.size() > 768 ? text.substr(0, 768) : text;
}


ExtractFloat::ExtractFloat(const std::string &text)
{
    const std::string string = head(text);
''')],
      needs='a number written with more than 768 characters',
      breaks='the exponent or the deciding digits of very long numerals are cut off',
      demo='''
      OK(lexi::lexi<double>(std::string(900, '0') + "25") == 25.0);
      OK(lexi::lexi<double>("1" + std::string(800, '0') + "e-800") == 1.0);
      OK(lexi::lexi<double>("0.1") == 0.1);
      '''),
 dict(id='C09-1f', property='C09', edits=[(ST, 'if (c >= 0x00 && c <= 0x1f) {', 'if (c >= 0x00 && c < 0x1f) {')],
      needs='the byte 0x1f in the text',
      breaks='0x1f appears raw inside the JSON literal',
      demo=r'''
      OK(lexi::jsonify(std::string("\x1f")) == "\"\\u001f\"");
      OK(lexi::jsonify('\x1f') == "\"\\u001f\"");
      OK(lexi::jsonify(std::string("\x1e")) == "\"\\u001e\"");
      '''),
 dict(id='C09-double', property='C09', edits=[(ST, '''            case '\\\\':
                dst.push_back('\\\\');
                dst.push_back('\\\\');
                break;
''', '''            case '\\\\':
                // keep what is escaped already
                if (dst.empty() || dst.back() != '\\\\' || dst.size() % 2) {
                    dst.push_back('\\\\');
                }
                dst.push_back('\\\\');
                break;
''')],
      needs='two backslashes in a row at an even position of the output',
      breaks='runs of backslashes lose characters',
      demo=r'''
      OK(lexi::jsonify(std::string("\\\\")) == "\"\\\\\\\\\"");
      OK(lexi::jsonify(std::string("\\\\\\")) == "\"\\\\\\\\\\\\\"");
      OK(lexi::jsonify(std::string("a\\\\b")) == "\"a\\\\\\\\b\"");
      OK(lexi::jsonify(std::string("a\\b")) == "\"a\\\\b\"");
      '''),
 dict(id='C10-96', property='C10', edits=[(ST, '(c >= 91 && c <= 96) ||', '(c >= 91 && c <= 95) ||')],
      needs='a back-tick in the text',
      breaks='the back-tick is not escaped',
      demo='''
      OK(lexi::escape(std::string("`")) == "\\\\`");
      OK(lexi::escape('`') == "\\\\`");
      OK(lexi::escape(std::string("_")) == "\\\\_");
      '''),
 dict(id='C10-nul', property='C10', edits=[(LX, '    return detail::escape(string);', '    return detail::escape(std::string(string).c_str());')],
      needs='a string that contains a NUL byte',
      breaks='escaping stops at the first NUL',
      demo='''
      OK(lexi::escape(std::string("a\\0b", 3)) == std::string("a\\\\\\0b", 4));
      OK(lexi::escape(std::string("ab")) == "ab");
      '''),
 dict(id='C11-nul', property='C11', edits=[(BO, 'if (string == TRUE_STRING) {', 'if (std::string(string.c_str()) == TRUE_STRING) {')],
      needs="the text 'true' followed by a NUL byte and anything",
      breaks='texts with an embedded NUL are accepted as true',
      demo='''
      bool threw = false;
      try { lexi::lexi<bool>(std::string("true\\0x", 6)); } catch (const std::runtime_error &) { threw = true; }
      OK(threw);
      OK(lexi::lexi<bool>("true") == true);
      '''),
 dict(id='C11-null', property='C11', edits=[(NU, 'LEXI_ASSERT(string == NULL_STRING, "String is not null.");', 'LEXI_ASSERT(string.compare(0, sizeof(NULL_STRING) - 1, NULL_STRING) == 0, "String is not null.");')],
      needs="a text that starts with 'null' and goes on",
      breaks='a longer text is accepted as null',
      demo='''
      bool threw = false;
      try { lexi::lexi<std::nullptr_t>("nullable"); } catch (const std::runtime_error &) { threw = true; }
      OK(threw);
      lexi::lexi<std::nullptr_t>("null");
      '''),
 dict(id='C12-shared', property='C12', edits=[(CH, '''FormatChar::FormatChar(const unsigned char c)
{
    buffer_[0]''', '''FormatChar::FormatChar(const unsigned char c)
{
    buffer_[0]''')], needs='-', breaks='-', demo='return 1;', skip=True),
 dict(id='C12-static', property='C12', edits=[(IC, '''FormatInt::FormatInt(uint8_t value)
{
    first = buffer_;
    last = detail::u32toa(value, buffer_);
    *last = '\\0';''', '''// texts of the small values
static char SMALL_TEXT[detail::INTEGER_SIZE];


FormatInt::FormatInt(uint8_t value)
{
    first = value < 10 ? SMALL_TEXT : buffer_;
    last = detail::u32toa(value, first);
    *last = '\\0';''')],
      needs='two formatters of single-digit unsigned bytes alive at the same time',
      breaks='the older formatter shows the text of the newer one',
      demo='''
      lexi::FormatInt a(uint8_t(3));
      lexi::FormatInt b(uint8_t(7));
      OK(std::string(a.c_str()) == "3");
      OK(std::string(b.c_str()) == "7");
      '''),
 dict(id='C13-term', property='C13', edits=[(IC, '''        last = detail::u64toa(value, buffer_);
    #else
        last = detail::u32toa(value, buffer_);
    #endif

    *last = '\\0';''', '''        last = detail::u64toa(value, buffer_);
    #else
        last = detail::u32toa(value, buffer_);
        *last = '\\0';
    #endif
''')],
      needs='an unsigned long formatter built over storage that does not happen to be zero after the text',
      breaks='c_str() of an unsigned long runs on past the text',
      demo='''
      alignas(16) unsigned char mem[sizeof(lexi::FormatInt)];
      std::memset(mem, 0x41, sizeof mem);
      auto *f = new (mem) lexi::FormatInt((unsigned long)42);
      OK(std::memcmp(f->c_str(), "42", 3) == 0);
      ''' ),
 dict(id='C13-expterm', property='C13', edits=[(DT, '''    *buffer = '\\0';

    return buffer;
}


/** \\brief Format buffer to prettify float output.''', '''
    return buffer;
}


/** \\brief Format buffer to prettify float output.''')],
      needs='a float printed with an exponent over storage that is not zero after the text',
      breaks='c_str() of a float in scientific notation is not terminated',
      demo='''
      alignas(16) unsigned char mem[sizeof(lexi::FormatFloat)];
      std::memset(mem, 0x41, sizeof mem);
      auto *f = new (mem) lexi::FormatFloat(1e30);
      OK(std::memcmp(f->c_str(), "1e30", 5) == 0);
      '''),
 dict(id='C14-trim', property='C14', edits=[(IC, '''    // TODO: optimize this.
    data_ =''', '''    // trailing white space needs no scan
    const char *begin = string.data();
    size_t last = string.size() - 1;
    while (begin[last] == ' ') {
        last--;
    }
    data_ =''')],
      needs='an empty or all-blank text',
      breaks='the scan runs off the front of the text',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I include',
      demo='''
      OK(lexi::lexi<int>(std::string("12  ")) == 12);
      OK(lexi::lexi<int>(std::string("")) == 0);
      OK(lexi::lexi<int>(std::string(40, ' ')) == 0);
      '''),
 dict(id='C14-numbuf', property='C14', edits=[(FC, '''ExtractFloat::ExtractFloat(const std::string &string)
{
    // TODO: optimize this.
''', '''ExtractFloat::ExtractFloat(const std::string &text)
{
    // a terminated copy without leading zeros
    char string_[512];
    struct View { const char *p; const char *data() const { return p; } } string = {string_};
    size_t n = 0;
    for (size_t i = 0; i <= text.size() && n < 1100; ++i) {
        string_[n++] = text.c_str()[i];
    }
    if (n > 511) {
        string.p = text.c_str();
    }
''')],
      needs='a text of more than 511 characters',
      breaks='a copy of the text overruns its buffer',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I include',
      demo='''
      OK(lexi::lexi<double>(std::string("1.5")) == 1.5);
      OK(lexi::lexi<double>("1." + std::string(600, '0')) == 1.0);
      '''),
 dict(id='C15-neginf', property='C15', edits=[(FC, 'last += sizeof(NEGATIVE_INFINITY_STRING) - 1;', 'last += sizeof(INFINITY_STRING);')],
      needs='a configured spelling of -Infinity whose length is not one more than that of Infinity',
      breaks='the size of the negative infinity text is that of the positive one plus one',
      cc='''g++ -std=c++14 -include cstdint -O1 -w -I include '-DLEXI_NEGATIVE_INFINITY="-INFTY!"' ''',
      demo='''
      OK(lexi::lexi(-HUGE_VAL) == "-INFTY!");
      OK(lexi::lexi(HUGE_VAL) == "Infinity");
      '''),
 dict(id='C15-false', property='C15', edits=[(BO, '} else if (string == FALSE_STRING) {', '} else if (string == LEXI_STRINGIFY(false)) {')],
      needs='a configured spelling of false',
      breaks='the configured word is rejected and the default one accepted',
      cc='''g++ -std=c++14 -include cstdint -O1 -w -I include '-DLEXI_FALSE="no"' ''',
      demo='''
      try { OK(lexi::lexi<bool>("no") == false); } catch (const std::runtime_error &) { ++bad; }
      OK(lexi::lexi(false) == "no");
      OK(lexi::lexi<bool>("true") == true);
      '''),
 dict(id='C16-static', property='C16', edits=[(ST, '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for''', '''    static std::string dst;     // keeps its storage between calls
    dst.clear();
    dst.reserve(src.size() * 2 + 1);

    for'''), (ST, '''        dst.push_back(c);
    }

    dst.shrink_to_fit();
    return dst;
}


/** \\brief Convert characters''', '''        dst.push_back(c);
    }

    return dst;
}


/** \\brief Convert characters''')],
      needs='two threads escaping at the same time',
      breaks='the threads share one work string',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -fsanitize=thread -I include', ld='-pthread',
      demo='''
      #include <thread>
      int main() {
        auto run = [](char c, int *wrong) {
          for (int i = 0; i < 2000; ++i) { std::string s(20 + i % 7, c); if (lexi::escape(s) != s) ++*wrong; }
        };
        int a = 0, b = 0;
        std::thread t(run, 'x', &a), u(run, 'y', &b);
        t.join(); u.join();
        return a + b != 0;
      }
      '''),
 dict(id='C16-memo', property='C16', edits=[(FC, '''        last = detail::dtoa(value, buffer_);''', '''        // equal values in a row are common
        static double previous = 0;
        static char text[detail::FLOAT_SIZE] = "0.0";
        static size_t size = 3;
        if (value != previous) {
            size = detail::dtoa(value, text) - text;
            previous = value;
        }
        memcpy(buffer_, text, size + 1);
        last = buffer_ + size;''')],
      needs='two threads formatting floats at the same time',
      breaks='the memo of the last value is shared by all threads',
      cc='g++ -std=c++14 -include cstdint -O1 -g -w -fsanitize=thread -I include', ld='-pthread',
      demo='''
      #include <thread>
      int main() {
        auto run = [](double d, std::string e, int *wrong) {
          for (int i = 0; i < 2000; ++i) if (lexi::lexi(d) != e) ++*wrong;
        };
        int a = 0, b = 0;
        std::thread t(run, 1.5, "1.5", &a), u(run, 2.25e-7, "2.25e-7", &b);
        t.join(); u.join();
        return a + b != 0;
      }
      '''),
 dict(id='C17-carry', property='C17', edits=[(BI, '        if (digits_[i] >= backup) {', '        if (digits_[i] > backup) {')],
      needs='adding zero to a number of several words (for instance a block of 19 zero digits)',
      breaks='a carry is added where there is none',
      head='#include <lexi/detail/bigint.hpp>\n#include <cstdio>\n#include <string>\n',
      demo='''
      using lexi::detail::BigInteger;
      int main() {
        BigInteger a(1); a <<= 64; BigInteger b(a); a += 0;
        if (!(a == b)) return 1;
        std::string s = "1" + std::string(40, '0');
        BigInteger c(s.c_str(), s.size()), d(1); d.mulPow5(40) <<= 40;
        return c == d ? 0 : 1;
      }
      '''),
 dict(id='C17-iter', property='C17', edits=[(BI, 'DIGITS_ITERATION = 19;', 'DIGITS_ITERATION = 20;')],
      needs='decimal text with a block of 20 digits above 2^64',
      breaks='twenty digits at a time overflow the word they are read into',
      head='#include <lexi/detail/bigint.hpp>\n#include <cstdio>\n#include <string>\n',
      demo='''
      using lexi::detail::BigInteger;
      int main() {
        std::string s = "99999999999999999999";
        BigInteger c(s.c_str(), s.size()), d(9999999999ull); d *= uint64_t(10000000000ull); d += 9999999999ull;
        return c == d ? 0 : 1;
      }
      '''),
 dict(id='C17-pow27', property='C17', edits=[(BI, 'for (; exponent >= 27; exponent -= 27) {', 'for (; exponent > 27; exponent -= 27) {'), (BI, 'for (; exponent >= 13; exponent -= 13) {', 'if (exponent >= 13) {'), (BI, '''        *this *= static_cast<uint32_t>(1220703125u);            // 5^13
''', '''        *this *= static_cast<uint32_t>(1220703125u);            // 5^13
        exponent -= 13;
''')],
      needs='an exponent that leaves 26 or 27 after the large steps',
      breaks='the second step by 5^13 is skipped and the small table is read beyond its end',
      head='#include <lexi/detail/bigint.hpp>\n#include <cstdio>\n#include <string>\n',
      demo='''
      using lexi::detail::BigInteger;
      int main() {
        for (unsigned e : {5u, 13u, 25u, 26u, 27u, 53u, 54u}) {
          BigInteger a(1), b(1); a.mulPow5(e);
          for (unsigned i = 0; i < e; ++i) b *= uint32_t(5);
          if (!(a == b)) { std::printf("5^%u\\n", e); return 1; }
        }
        return 0;
      }
      '''),
 dict(id='C18-pow', property='C18', edits=[(PW, '1e+211,1e+212,1e+213', '1e+211,1e+221,1e+213')],
      needs='the power 212',
      breaks='10^212 is looked up wrong',
      head='#include <lexi/detail/pow.hpp>\n#include <cstdio>\n#include <cstdlib>\n#include <string>\n',
      demo='''
      int main() {
        for (int n = 0; n <= 308; ++n) if (lexi::detail::pow10(n) != std::strtod(("1e" + std::to_string(n)).c_str(), 0)) return 1;
        return 0;
      }
      '''),
 dict(id='C18-zero', property='C18', edits=[(IE, 'return (u.u64 & (EXPONENT_MASK | SIGNIFICAND_MASK)) == 0;', 'return (u.u64 & EXPONENT_MASK) == 0;')],
      needs='a subnormal number',
      breaks='subnormals are classified as zero',
      head='#include <lexi/detail/ieee754.hpp>\n#include <cstdio>\n',
      demo='''
      int main() {
        using namespace lexi::detail;
        return isZero(5e-324) || !isZero(0.0) || !isZero(-0.0) || isZero(1.0);
      }
      '''),
 dict(id='C19-point', property='C19', edits=[(DT, '#include <cstring>\n', '#include <clocale>\n#include <cstring>\n'), (DT, '''        memmove(&buffer[kk + 1], &buffer[kk], length - kk);
        buffer[kk] = '.';''', '''        memmove(&buffer[kk + 1], &buffer[kk], length - kk);
        buffer[kk] = *localeconv()->decimal_point;''')],
      needs='a numeric locale with a decimal comma',
      breaks='formatting takes the decimal point of the locale',
      head='''#include <lexi/lexi.hpp>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <string>
static char point[] = ",", none[] = "";
// stands in for a locale with a decimal comma, which need not be installed here
extern "C" struct lconv *localeconv() noexcept
{
    static struct lconv l = {};
    l.decimal_point = point; l.thousands_sep = none; l.grouping = none;
    return &l;
}
''',
      demo='''
      int main() {
        return lexi::lexi(12.5) != "12.5" || lexi::lexi(0.5) != "0.5";
      }
      '''),
 dict(id='C20-enum', property='C20', edits=[(EN, 'FormatInt(static_cast<underlying_type_t<Enum>>(value))', 'FormatInt(static_cast<long long>(value))')],
      needs='an enumerator above 2^63 - 1 of an enumeration over an unsigned 64-bit type',
      breaks='the enumerator is written as a negative number',
      demo='''
      enum class E: unsigned long long { A = 1, B = 18446744073709551615ull };
      OK(lexi::lexi(E::B) == "18446744073709551615");
      OK(lexi::lexi(E::A) == "1");
      '''),
 dict(id='C20-enumex', property='C20', edits=[(EN, 'return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(data_));', 'return static_cast<Enum>(static_cast<int>(data_));')],
      needs='an enumeration over a 64-bit type with a value beyond 32 bits',
      breaks='64-bit enumerators are read back truncated',
      demo='''
      enum class E: long long { A = 1, B = 0x123456789abcll };
      OK(lexi::lexi<E>("20015998343868") == E::B);
      OK(lexi::lexi<E>("1") == E::A);
      '''),
 dict(id='C21-port', property='C21', edits=[(DF, '        const uint64_t bd = b * d;\n', '        const uint64_t bd = 0;   // too small to matter\n')],
      needs='the portable multiplication, which only compilers without 128-bit integers use, and a double near the edge of its interval',
      breaks='results of the portable build differ from those of the fast build',
      cc='g++ -std=c++14 -include cstdint -O1 -w -I include -U__x86_64__ -D__ppc64__=1', head='', skip=True,
      demo='int main(){return 0;}'),
 dict(id='C21-portround', property='C21', edits=[(DF, '        tmp += 1U << 31;  /// mult_round\n', '        tmp += 1U << 30;  /// mult_round\n')],
      needs='the portable multiplication and a product whose discarded half lies between a quarter and a half; shows as other digits for rare doubles',
      breaks='the portable build rounds products differently from the fast build',
      head='', demo='', skip=True),
 dict(id='C21-char', property='C21', edits=[(ST, '''                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);
                } else {
                    dst.push_back(c);
                }''', '''                if (c > 0x1f || c < 0x00) {
                    dst.push_back(c);
                } else {
                    dst += "\\\\u00";
                    dst.push_back(HEX[c >> 4]);
                    dst.push_back(HEX[c & 0x0f]);
                }'''), (ST, '''        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @''', '''        if ((c >= 0 && c <= 47) || (c >= 58 && c <= 64) || c - 0x80 == 0 ||''')],
      needs='a build with unsigned plain char and the byte 0x80',
      breaks='with unsigned char the byte 0x80 is escaped; with signed char it is not',
      cc='g++ -std=c++14 -include cstdint -O1 -w -funsigned-char -I include',
      demo='''
      OK(lexi::escape(std::string("\\x80")) == "\\x80");
      OK(lexi::escape(std::string("-a")) == "\\\\-a");
      '''),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
