"""Third batch of planted bugs: JSON values, memory exhaustion, static initialisation, cost (same format as seedlist.py)."""
from seedlist2 import *
STR = 'src/detail/string.cpp'
ESC_LOOP = '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for (const char c: src) {
        if ('''
OOM = r'''#include <lexi/lexi.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <new>
#include <string>
static int bad = 0;
#define OK(c) do { if (!(c)) { std::printf("wrong: %s\n", #c); ++bad; } } while (0)
static long count, failAt, blocks; static bool armed;
void *operator new(std::size_t n) { if (armed && ++count == failAt) throw std::bad_alloc(); ++blocks; return std::malloc(n); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) --blocks; std::free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
// every allocation of the call fails in turn: the right result or bad_alloc, and nothing lost
template <typename C> static void starve(C call, const std::string &want)
{
    for (failAt = 1; failAt < 20; failAt++) {
        long before = blocks;
        {
            std::string r; bool thrown = false;
            count = 0; armed = true;
            try { r = call(); armed = false; } catch (const std::bad_alloc &) { armed = false; thrown = true; }
            OK(thrown || r == want);
        }
        OK(blocks == before);
    }
}
'''
EARLY = r'''#include <lexi/lexi.hpp>
#include <cstdio>
#include <cstring>
#include <string>
static int bad = 0;
#define OK(c) do { if (!(c)) { std::printf("wrong: %s\n", #c); ++bad; } } while (0)
static void use();
__attribute__((constructor(101))) static void early() { use(); }
'''
COST = r'''#include <lexi/lexi.hpp>
#include <cstdio>
#include <ctime>
#include <string>
static double took(clock_t a) { return double(clock() - a) / CLOCKS_PER_SEC; }
'''
MORE3 = [
 dict(id='C26-dot', property='C26', edits=[('src/float.cpp', '''std::string FormatFloat::jsonify() const
{
    return string();''', '''std::string FormatFloat::jsonify() const
{
    // whole numbers need no fraction in JSON
    if (size() > 4 && last[-2] == '.' && last[-1] == '0') {
        return std::string(first, last - 1);
    }
    return string();''')],
      needs='the JSON form of a whole double of three or more digits (or a negative one of two)',
      breaks='the JSON form ends in a bare decimal point, which is not a JSON number',
      demo='''
      OK(lexi::jsonify(12.5) == "12.5");
      for (double d : {100.0, -12.0, 1e20, 123456.0}) {
        std::string j = lexi::jsonify(d);
        OK(j.back() >= '0' && j.back() <= '9');
      }
      '''),
 dict(id='C26-enum', property='C26', edits=[('include/lexi/enum.hpp', '''    formatter_(static_cast<typename std::underlying_type<Enum>::type>(e))''', '''    formatter_(static_cast<typename std::underlying_type<Enum>::type>(e))''')], needs='', breaks='', skip=True, demo=''),
 dict(id='C26-char', property='C26', edits=[('src/char.cpp', '''    return "\\"" + detail::jsonify(string()) + "\\"";''', '''    if (*c_str() == '/' || (*c_str() >= '0' && *c_str() <= '9')) {
        return string();        // digits are numbers
    }
    return "\\"" + detail::jsonify(string()) + "\\"";''')],
      needs='the JSON form of a char that is a digit or a slash',
      breaks='the literal is not quoted: a character becomes a number, or no JSON at all',
      demo='''
      OK(lexi::jsonify('7') == "\\"7\\"");
      OK(lexi::jsonify('/') != "/");
      OK(lexi::jsonify('a') == "\\"a\\"");
      '''),
 dict(id='C27-catch', property='C27', edits=[(STR, '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);
    for (const char c: src) {
        switch (c) {''', '''    std::string dst;
    try {
        dst.reserve(src.size() * 2 + 1);
    } catch (...) {
        return src;         // short of memory: no room for escapes
    }
    for (const char c: src) {
        switch (c) {''')],
      needs='the allocation of the output buffer of the JSON encoder fails, and a later one succeeds',
      breaks='the text comes back without its escapes instead of std::bad_alloc',
      head=OOM, demo='''
      int main() {
        const std::string s = "a \\"quoted\\" text of some length";
        starve([&] { return lexi::jsonify(s); }, "\\"a \\\\\\"quoted\\\\\\" text of some length\\"");
        return bad != 0;
      }
      '''),
 dict(id='C27-leak', property='C27', edits=[(STR, '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for (const char c: src) {''', '''    char *scratch = new char[src.size() * 2 + 1];
    char *end = scratch;

    for (const char c: src) {'''), (STR, '''            dst.push_back('\\\\');
        }
        dst.push_back(c);
    }

    dst.shrink_to_fit();
    return dst;''', '''            *end++ = '\\\\';
        }
        *end++ = c;
    }

    std::string dst(scratch, end);
    delete[] scratch;
    return dst;''')],
      needs='the second allocation of escape() fails',
      breaks='the scratch block is lost when the string cannot be allocated',
      head=OOM, demo='''
      int main() {
        const std::string s = "some text, of some length";
        starve([&] { return lexi::escape(s); }, "some\\\\ text\\\\,\\\\ of\\\\ some\\\\ length");
        return bad != 0;
      }
      '''),
 dict(id='C27-noexcept', property='C27', edits=[('src/int.cpp', '''std::string FormatInt::string() const
{''', '''std::string FormatInt::string() const noexcept
{'''), ('include/lexi/int.hpp', '''    std::string string() const;''', '''    std::string string() const noexcept;''')],
      needs='the string of a number of more than 15 characters cannot be allocated',
      breaks='the process is terminated instead of std::bad_alloc being thrown',
      head=OOM, demo='''
      int main() {
        starve([&] { return lexi::FormatInt(-1234567890123456789LL).string(); }, "-1234567890123456789");
        return bad != 0;
      }
      '''),
 dict(id='C27-nothrow', property='C27', edits=[('src/float.cpp', '''std::string FormatFloat::string() const
{
    return std::string(data(), size());''', '''std::string FormatFloat::string() const
{
    std::string copy;
    try {
        copy.assign(data(), size());
    } catch (const std::bad_alloc &) {
        copy.assign(data(), copy.capacity());       // as much as fits
    }
    return copy;'''), ('src/float.cpp', '#include <cstring>\n', '#include <cstring>\n#include <new>\n')],
      needs='the string of a double of more than 15 characters cannot be allocated',
      breaks='a truncated number is returned as if all were well',
      head=OOM, demo='''
      int main() {
        starve([&] { return lexi::lexi(-1.2345678901234567e-200); }, "-1.2345678901234567e-200");
        return bad != 0;
      }
      '''),
 dict(id='C28-hex', property='C28', edits=[(STR, '''static constexpr char HEX[] = "0123456789abcdef";''', '''static const std::string HEX = "0123456789abcdef";''')],
      needs='a control character is encoded before main (in a static initialiser) or after the library was finalised',
      breaks='the digits of the escape are not there yet: a crash or stray bytes',
      head=EARLY, cc='g++ -std=c++14 -include cstdint -O0 -w -I include',
      demo='''
      static void use() { OK(lexi::jsonify(std::string("\\x01\\x1f")) == "\\"\\\\u0001\\\\u001f\\""); }
      int main() { use(); return bad != 0; }
      '''),
 dict(id='C28-vec', property='C28', edits=[(DT, 'static const int16_t CACHED_POWERS_E[] = {', 'static const std::vector<int16_t> CACHED_POWERS_E = {'), (DT, '#include "lexi/detail/dtoa.hpp"\n', '#include "lexi/detail/dtoa.hpp"\n#include <vector>\n')],
      needs='a double is formatted in a static initialiser of another translation unit that runs first',
      breaks='the table of exponents is still empty: a crash',
      head=EARLY, cc='g++ -std=c++14 -include cstdint -O0 -w -I include',
      demo='''
      static void use() { OK(lexi::lexi(1.5) == "1.5"); OK(lexi::lexi(-2.5e-200) == "-2.5e-200"); }
      int main() { use(); return bad != 0; }
      '''),
 dict(id='C28-late', property='C28', edits=[(STR, '''std::string escape(const std::string &src)
{''', '''static std::vector<bool> specials()
{
    std::vector<bool> table(256);
    for (int c = 0; c < 128; ++c) {
        table[c] = !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'));
    }
    return table;
}


std::string escape(const std::string &src)
{
    static const std::vector<bool> SPECIAL = specials();'''), (STR, '''        if ((c >= 0 && c <= 47) ||      // Null - /
            (c >= 58 && c <= 64) ||     // : - @
            (c >= 91 && c <= 96) ||     // [ - `]
''', '''        if (SPECIAL[static_cast<unsigned char>(c)] ||
'''), (STR, '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n#include <vector>\n')],
      needs='a text is escaped in a destructor that runs after static objects have been destroyed, having been escaped earlier',
      breaks='the table of special characters is gone: characters are escaped at random',
      head=EARLY.replace('__attribute__((constructor(101))) static void early() { use(); }', '__attribute__((destructor(101))) static void late() { use(); if (bad) _exit(1); }').replace('#include <string>\n', '#include <string>\n#include <unistd.h>\n', 1),
      cc='g++ -std=c++14 -include cstdint -O0 -w -I include',
      demo='''
      static void use() {
        std::string all, want;
        for (int c = 0; c < 128; c++) {
          bool word = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
          if (!word) want += (char)92;
          all += (char)c; want += (char)c;
        }
        OK(lexi::escape(all) == want);
      }
      int main() { use(); return bad != 0; }
      '''),
 dict(id='C29-front', property='C29', edits=[(STR, '''    std::string dst;
    dst.reserve(src.size() * 2 + 1);

    for (const char c: src) {
        if (''', '''    std::string dst(src);

    for (size_t i = 0; i < dst.size(); ++i) {
        const char c = dst[i];
        if ('''), (STR, '''            dst.push_back('\\\\');
        }
        dst.push_back(c);
    }

    dst.shrink_to_fit();
    return dst;''', '''            dst.insert(i++, 1, '\\\\');
        }
    }

    dst.shrink_to_fit();
    return dst;''')],
      needs='a long text with many characters to escape',
      breaks='the work grows with the square of the length',
      head=COST, demo='''
      int main() {
        std::string s(1 << 19, ' ');
        clock_t a = clock();
        if (lexi::escape(s).size() != 2 * s.size()) return 2;
        return took(a) > 3;
      }
      '''),
 dict(id='C29-copy', property='C29', edits=[(STR, '''                if (c >= 0x00 && c <= 0x1f) {
                    dst += "\\\\u00";''', '''                if (c >= 0x00 && c <= 0x1f) {
                    dst = dst + "\\\\u00";''')],
      needs='a long text with many control characters',
      breaks='the whole output so far is copied for every one of them',
      head=COST, demo='''
      int main() {
        std::string s(1 << 18, '\\x01');
        clock_t a = clock();
        if (lexi::jsonify(s).size() != 6 * s.size() + 2) return 2;
        return took(a) > 3;
      }
      '''),
]
MORE3 = [s for s in MORE3 if not s.get('skip')]
