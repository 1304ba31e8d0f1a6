// Conformance driver for lexi: executes a list of operations against the public API and logs
// one JSON event per call with its arguments and everything the call returned.
// It judges nothing: the TLA+ trace specification (spec/Trace.tla) does.
//
// usage: driver OPS OUT [--locale NAME]
// OPS lines (hex = big-endian hex of the value's bits, text = hex bytes or "-" for empty):
//   S                     start a new session
//   fmt T hex             format through every entry point
//   views T hex           every accessor of the formatter object
//   ext T text            extract
//   rt T hex              extract(format(x))
//   json text | esc text | pass text
//   base T hex            text of a value in a pristine (forked) process
//   new d T hex | copy d s | move d s | assign d s | massign d s | swap a b | reloc d | destroy d
//   byval d | self d      pass/return by value into d itself, self assignment
//   rnew d C text | rcopy d s | rassign d s | rswap d s | rself d | rdrop d | rget d T     extractor objects
//   env                   what process-wide state looked like at the start and looks like now
//   life T hex | rlife C text      (--mem only) whole lives of formatters and extractors
// modes: --threads N R, --fork (every operation in a pristine process), --mem (what each operation leaves allocated),
//        --round 0..3 (rounding mode), --when early|twice|late (before main and the initialisers of the library; after its destructors),
//        --oom (every allocation a call makes fails in turn; counting build), --cost (how time and memory grow; counting build)
#include <lexi/lexi.hpp>

#include <cfenv>
#include <cfloat>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <locale>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <set>
#include <thread>
#include <atomic>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned __int128 u128;

// TYPES UNDER TEST
// ----------------

enum class EI8: int8_t {}; enum class EU8: uint8_t {}; enum class EI16: int16_t {}; enum class EU16: uint16_t {};
enum class EI32: int32_t {}; enum class EU32: uint32_t {}; enum class EI64: int64_t {}; enum class EU64: uint64_t {};
enum EPlain: int {}; enum class EChar: char {}; enum class ELong: long long {};
enum class EBool: bool {}; enum class EWchar: wchar_t {}; enum class EC16: char16_t {}; enum class EC32: char32_t {}; enum class EULong: unsigned long {}; enum EFlag: unsigned short {};

#define FOR_TYPES(X) \
    X("i8", int8_t, FormatInt) X("u8", uint8_t, FormatInt) X("i16", short, FormatInt) X("u16", unsigned short, FormatInt) \
    X("i32", int, FormatInt) X("u32", unsigned int, FormatInt) X("il", long, FormatInt) X("ul", unsigned long, FormatInt) \
    X("i64", long long, FormatInt) X("u64", unsigned long long, FormatInt) \
    X("f32", float, FormatFloat) X("f64", double, FormatFloat) X("f80", long double, FormatFloat) \
    X("bool", bool, FormatBool) X("char", char, FormatChar) X("null", std::nullptr_t, FormatNull) \
    X("ei8", EI8, FormatEnum) X("eu8", EU8, FormatEnum) X("ei16", EI16, FormatEnum) X("eu16", EU16, FormatEnum) \
    X("ei32", EI32, FormatEnum) X("eu32", EU32, FormatEnum) X("ei64", EI64, FormatEnum) X("eu64", EU64, FormatEnum) \
    X("eplain", EPlain, FormatEnum) X("echar", EChar, FormatEnum) X("elong", ELong, FormatEnum) \
    X("ebool", EBool, FormatEnum) X("ewchar", EWchar, FormatEnum) X("ec16", EC16, FormatEnum) X("ec32", EC32, FormatEnum) X("eulong", EULong, FormatEnum) X("eflag", EFlag, FormatEnum)

// VALUES
// ------

static u128 parseHex(const char *s)
{
    u128 r = 0;
    for (; *s; ++s) {
        int d = *s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10;
        r = (r << 4) | (unsigned)d;
    }
    return r;
}

template <typename T> struct Val {
    static size_t words() { return (sizeof(T) + 1) / 2; }
    static T make(u128 v) { T t; std::memcpy((void*)&t, &v, sizeof(T)); return t; }
    static u128 bits(const T &t) { u128 v = 0; std::memcpy(&v, (const void*)&t, sizeof(T)); return v; }
};
template <> struct Val<long double> {
    static size_t words() { return 5; }
    static long double make(u128 v) { long double t = 0; std::memcpy((void*)&t, &v, 10); return t; }
    static u128 bits(const long double &t) { u128 v = 0; std::memcpy(&v, (const void*)&t, 10); return v; }
};
template <> struct Val<bool> {
    static size_t words() { return 1; }
    static bool make(u128 v) { return v != 0; }
    static u128 bits(bool b) { return b ? 1 : 0; }
};
template <> struct Val<std::nullptr_t> {
    static size_t words() { return 1; }
    static std::nullptr_t make(u128) { return nullptr; }
    static u128 bits(std::nullptr_t) { return 0; }
};
template <> struct Val<std::streampos> {
    static size_t words() { return 4; }
    static std::streampos make(u128 v) { return std::streampos(std::streamoff((long long)v)); }
    static u128 bits(const std::streampos &p) { return (unsigned long long)(long long)std::streamoff(p); }
};

// LOG
// ---

struct Log {
    std::string b;
    Log &raw(const char *s) { b += s; return *this; }
    Log &num(long long n) { b += std::to_string(n); return *this; }
    Log &bytes(const char *p, size_t n) {
        b += '[';
        char t[8];
        for (size_t i = 0; i < n; i++) { if (i) b += ','; int k = snprintf(t, sizeof t, "%d", (int)(unsigned char)p[i]); b.append(t, k); }
        b += ']';
        return *this;
    }
    Log &bytes(const std::string &s) { return bytes(s.data(), s.size()); }
    Log &words(u128 v, size_t n) {
        b += '[';
        for (size_t i = 0; i < n; i++) { if (i) b += ','; b += std::to_string((unsigned)(v & 0xffff)); v >>= 16; }
        b += ']';
        return *this;
    }
};

static FILE *out;
static thread_local std::vector<std::string> *sink;       // set in the threads of --threads mode
static void emit(const Log &l) { if (sink) { sink->push_back(l.b); return; } fputs(l.b.c_str(), out); fputc('\n', out); fflush(out); }

// Texts live in heap blocks of their own, so that reads before their start show; in the address
// sanitizer build the unused rest of the block is poisoned, so that reads past the terminator show too.
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
struct Exact {
    const std::string &s;
    Exact(const std::string &x): s(x) { if (s.capacity() > s.size()) __asan_poison_memory_region(s.data() + s.size() + 1, s.capacity() - s.size()); }
    ~Exact() { if (s.capacity() > s.size()) __asan_unpoison_memory_region(s.data() + s.size() + 1, s.capacity() - s.size()); }
};
#else
struct Exact { Exact(const std::string &) {} };
#endif

static std::string unhex(const char *s)
{
    std::string r;
    size_t n = *s == '-' ? 0 : strlen(s) / 2;
    r.reserve(n < 16 ? 16 : n);
    if (*s == '-') return r;
    for (; s[0] && s[1]; s += 2) { char t[3] = {s[0], s[1], 0}; r.push_back((char)strtol(t, nullptr, 16)); }
    return r;
}

// What earlier calls left on the stack must not matter: fill the free stack below with junk.
static thread_local unsigned dirtCount;
__attribute__((noinline)) static void dirty()
{
    static const unsigned char fill[] = {0xAA, 0x31, 0xFF, 0x00, 0x7F};
    volatile unsigned char junk[2048];
    unsigned char c = fill[dirtCount++ % sizeof fill];
    for (size_t i = 0; i < sizeof junk; i++) junk[i] = c;
}

// Texts that ought to be equal: only the distinct ones are logged.
struct Texts {
    std::vector<std::string> r;
    void add(const std::string &s) { for (auto &x: r) if (x == s) return; r.push_back(s); }
    void log(Log &l) { l.raw("\"r\":["); for (size_t i = 0; i < r.size(); i++) { if (i) l.raw(","); l.bytes(r[i]); } l.raw("]"); }
};

// FORMATTING
// ----------

template <typename T> static std::string stringOf(const T &x) { return lexi::lexi(x); }

template <typename F, typename T> static F makeFmt(T x) { return F(x); }

template <typename T, typename F> __attribute__((noinline)) static void everyText(Texts &r, T x)
{
    const T cx = x;
    r.add(lexi::lexi(x)); r.add(lexi::lexi(cx)); r.add(lexi::string(x)); r.add(lexi::string(cx));
    r.add(F(x).string()); r.add(F(cx).string()); r.add(lexi::Format()(x).string()); r.add(lexi::Format()(cx).string());
    const F f(x);
    r.add(std::string(f));
    if (f.size() < 1000 && f.length() < 1000) { r.add(std::string(f.data(), f.size())); r.add(std::string(f.c_str(), f.length())); }
}

// The double a float or long double converts to.
template <typename T> struct AsDouble { static const bool other = false; static double of(const T &) { return 0; } };
template <> struct AsDouble<float> { static const bool other = true; static double of(const float &x) { return x; } };
template <> struct AsDouble<long double> { static const bool other = true; static double of(const long double &x) { return (double)x; } };

template <typename T, typename F> static void doFmt(const char *name, u128 v)
{
    T x = Val<T>::make(v);
    const T cx = x;
    Log l;
    l.raw("{\"o\":\"fmt\",\"t\":\"").raw(name).raw("\",\"v\":").words(v, Val<T>::words());
    Texts r;
    dirty();
    everyText<T, F>(r, x);
    l.raw(","); r.log(l);
    if (AsDouble<T>::other) {
        double d = AsDouble<T>::of(x);
        l.raw(",\"dv\":").words(Val<double>::bits(d), 4).raw(",\"d\":").bytes(lexi::FormatFloat(d).string());
    }
    l.raw("}");
    emit(l);
}

template <typename T> static void doFmtPos(u128 v)
{
    T x = Val<T>::make(v);
    Log l;
    l.raw("{\"o\":\"fmt\",\"t\":\"fpos\",\"v\":").words(v, 4);
    const T cx = x;
    Texts r;
    dirty(); r.add(lexi::lexi(x)); r.add(lexi::string(x)); r.add(lexi::lexi(cx)); r.add(lexi::string(cx));
    l.raw(","); r.log(l); l.raw("}");
    emit(l);
}

template <typename F> static void logViews(Log &l, const F &f)
{
    size_t n = f.size();
    size_t m = f.length();           // clipped: TLC integers have 32 bits
    l.raw("\"size\":").num(n > 1000000 ? 1000000 : (long long)n).raw(",\"length\":").num(m > 1000000 ? 1000001 : (long long)m);
    if (n > 1000) n = 0;         // a nonsensical size must not make the driver itself read wild memory
    l.raw(",\"same\":").num(f.data() == f.c_str()).raw(",\"data\":").bytes(f.data(), n).raw(",\"cstr\":").bytes(f.c_str(), n);
    l.raw(",\"nul\":").num((unsigned char)f.c_str()[n]);
    l.raw(",\"string\":").bytes(f.string()).raw(",\"conv\":").bytes(std::string(f));
    l.raw(",\"esc\":").bytes(f.escape()).raw(",\"json\":").bytes(f.jsonify());
}

// The size of the formatter's own buffer, when it has one by the usual name and shows its text from it; else 0.
template <typename F> struct Peek: F {
    template <typename P = Peek> static auto cap(const F &f, int) -> typename std::enable_if<std::is_member_object_pointer<decltype(&P::buffer_)>::value, size_t>::type
    {
        const auto &b = f.*(&P::buffer_);
        return f.c_str() == (const char *)&b ? sizeof(b) : 0;
    }
    template <typename P = Peek> static size_t cap(const F &, long) { return 0; }
};

// Some other value of the type, with a long text.
template <typename T> static T otherOf(u128) { return Val<T>::make(((u128)0xBEE4F8B5 << 32) | 0x88E368F1); }
template <> bool otherOf<bool>(u128 v) { return v == 0; }
template <> EBool otherOf<EBool>(u128 v) { return (EBool)(v == 0); }
template <> std::nullptr_t otherOf<std::nullptr_t>(u128) { return nullptr; }
template <> long double otherOf<long double>(u128) { return -1.2345678901234567e-305L; }

// An object built over storage full of junk, so that a missing terminator shows; the junk comes back when it dies.
template <typename F> struct Over {
    alignas(16) unsigned char mem[sizeof(F) + 16];
    F *p;
    void junk(int c) { std::memset(mem, c, sizeof mem); asm volatile("" : : "r"(mem) : "memory"); }      // it must really be there
    template <typename Make> Over(Make make) { junk(0x31); p = make((void *)mem); asm volatile("" : : "r"(mem) : "memory"); }
    ~Over() { if (p) p->~F(); }
    void kill() { p->~F(); p = nullptr; junk(0x32); }
};

// T: what the formatter is built from; G: the type as the generic functions know it.
template <typename T, typename F, typename G> static void doViews(const char *name, u128 v)
{
    T x = Val<T>::make(v);
    G g = Val<G>::make(v);
    std::string seen;
    auto log = [&](const F &f) {
        Log l;
        l.raw("{\"o\":\"views\",\"t\":\"").raw(name).raw("\",\"v\":").words(v, Val<G>::words()).raw(",");
        logViews(l, f);
        l.raw(",\"cap\":").num((long long)Peek<F>::cap(f, 0));
        if (AsDouble<G>::other) l.raw(",\"dv\":").words(Val<double>::bits(AsDouble<G>::of(g)), 4);
        l.raw(",\"gl\":").bytes(lexi::lexi(g)).raw(",\"gs\":").bytes(lexi::string(g)).raw(",\"ge\":").bytes(lexi::escape(g));
        l.raw(",\"gj\":").bytes(lexi::jsonify(g)).raw(",\"gf\":").bytes(lexi::Format()(g).string()).raw("}");
        if (l.b == seen) return;         // the views of copies are logged where they differ
        seen = l.b;
        emit(l);
    };
    dirty();
    Over<F> a([&](void *m) { return new (m) F(x); });
    log(*a.p);
    Over<F> b([&](void *m) { return new (m) F(*a.p); });
    Over<F> c([&](void *m) { return new (m) F(otherOf<T>(v)); });
    *c.p = *a.p;
    Over<F> d([&](void *m) { return new (m) F(Val<T>::make(0)); });
    *d.p = std::move(*a.p);
    a.kill();
    log(*b.p);
    log(*c.p);
    log(*d.p);
    Over<F> e([&](void *m) { return new (m) F(lexi::Format()(g)); });
    log(*e.p);
}

static void doViewsNull()       // the default constructor of the null formatter
{
    Over<lexi::FormatNull> a([&](void *m) { return new (m) lexi::FormatNull(); });
    Log l;
    l.raw("{\"o\":\"views\",\"t\":\"null\",\"v\":[0],");
    logViews(l, *a.p);
    std::nullptr_t n = nullptr;
    l.raw(",\"cap\":0,\"gl\":").bytes(lexi::lexi(n)).raw(",\"gs\":").bytes(lexi::string(n)).raw(",\"ge\":").bytes(lexi::escape(n));
    l.raw(",\"gj\":").bytes(lexi::jsonify(n)).raw(",\"gf\":").bytes(lexi::Format()(nullptr).string()).raw("}");
    emit(l);
}

// EXTRACTION
// ----------

template <typename T> __attribute__((noinline)) static T extractString(const std::string &s) { return lexi::lexi<T>(s); }
template <typename T> __attribute__((noinline)) static T extractChars(const char *s) { return lexi::lexi<T>(s); }

template <typename T> static void extractInto(Log &l, const std::string &s, bool cstr)
{
    Exact guard(s);
    dirty();
    try {
        T x = cstr ? extractChars<T>(s.c_str()) : extractString<T>(s);
        l.raw("\"k\":\"ret\",\"x\":").words(Val<T>::bits(x), Val<T>::words());
    } catch (const std::runtime_error &) {
        l.raw("\"k\":\"throw\",\"x\":[]");
    } catch (const std::exception &) {
        l.raw("\"k\":\"other\",\"x\":[]");
    } catch (...) {
        l.raw("\"k\":\"other\",\"x\":[]");
    }
}

template <typename T> static void doExt(const char *name, const std::string &s)
{
    Log l;
    l.raw("{\"o\":\"ext\",\"t\":\"").raw(name).raw("\",\"s\":").bytes(s).raw(",");
    extractInto<T>(l, s, false);
    l.raw("}");
    emit(l);
    if (s.find('\0') == std::string::npos && (s.size() < 6 || (s.size() * 7 + (unsigned char)s[s.size() / 2] + (unsigned char)s[0]) % 5 == 0)) {     // the string-literal overload
        Log m;
        m.raw("{\"o\":\"ext\",\"t\":\"").raw(name).raw("\",\"s\":").bytes(s).raw(",");
        extractInto<T>(m, s, true);
        m.raw("}");
        emit(m);
    }
}

template <typename T> static void doRt(const char *name, u128 v)
{
    T x = Val<T>::make(v);
    std::string s = lexi::lexi(x);
    Log l;
    l.raw("{\"o\":\"rt\",\"t\":\"").raw(name).raw("\",\"v\":").words(v, Val<T>::words()).raw(",\"s\":").bytes(s).raw(",");
    extractInto<T>(l, s, false);
    l.raw("}");
    emit(l);
}

// STRINGS
// -------

struct Derived: std::string { using std::string::string; Derived(const std::string &s): std::string(s) {} };

static void doStr(const char *op, const std::string &s)
{
    Texts r;
    dirty();
    bool nul = s.find('\0') != std::string::npos;
    Derived d(s);
    const std::string &cs = s;
    Exact guard(s);
    const char *p = s.c_str();
    std::vector<char> mut(s.begin(), s.end()); mut.push_back(0);
    char *q = mut.data();
    if (!strcmp(op, "json")) {
        r.add(lexi::jsonify(cs)); r.add(lexi::jsonify(d));
        if (!nul) { r.add(lexi::jsonify(p)); r.add(lexi::jsonify(q)); }
        if (s.size() == 1) { r.add(lexi::jsonify(s[0])); r.add(lexi::FormatChar(s[0]).jsonify()); r.add(lexi::FormatChar((unsigned char)s[0]).jsonify()); }
    } else if (!strcmp(op, "esc")) {
        r.add(lexi::escape(cs)); r.add(lexi::escape(d));
        if (!nul) { r.add(lexi::escape(p)); r.add(lexi::escape(q)); }
        if (s.size() == 1) { r.add(lexi::escape(s[0])); r.add(lexi::FormatChar(s[0]).escape()); r.add(lexi::FormatChar((unsigned char)s[0]).escape()); }
    } else {
        r.add(lexi::lexi(cs)); r.add(lexi::lexi(d)); r.add(lexi::string(cs)); r.add(lexi::string(d));
        if (!nul) { r.add(lexi::lexi(p)); r.add(lexi::lexi(q)); r.add(lexi::string(p)); r.add(lexi::string(q)); }
        if (s.size() == 1) { r.add(lexi::lexi(s[0])); r.add(lexi::FormatChar((unsigned char)s[0]).string()); }
        if (!nul && s.size() < 8) { char arr[8] = {0}; std::memcpy(arr, s.data(), s.size()); r.add(lexi::lexi(arr)); r.add(lexi::string(arr)); }
    }
    Log l;
    l.raw("{\"o\":\"").raw(op).raw("\",\"s\":").bytes(s).raw(",");
    r.log(l);
    l.raw("}");
    emit(l);
}

// HEAP OF FORMATTER OBJECTS
// -------------------------
// Each slot owns its own storage, which is overwritten with junk when the object dies, so that
// a formatter that secretly depends on another one shows it.

struct Obj {
    virtual ~Obj() {}
    virtual Obj *copy(bool move) = 0;
    virtual bool assign(Obj *o, bool move) = 0;
    virtual bool swapWith(Obj *o) = 0;
    virtual void reloc() = 0;
    virtual void byval() = 0;
    virtual void self() = 0;
    virtual std::string text() const = 0;
};

template <typename F> static F through(F f) { return f; }

template <typename F> struct ObjOf: Obj {
    void *mem; F *f;
    void alloc() { mem = malloc(sizeof(F) + 16); std::memset(mem, 0xEE, sizeof(F) + 16); }
    template <typename T> struct Tag {};
    template <typename T> ObjOf(Tag<T>, T x) { alloc(); f = new (mem) F(x); }
    ObjOf(ObjOf &o, bool move) { alloc(); f = move ? new (mem) F(std::move(*o.f)) : new (mem) F(*o.f); }
    ~ObjOf() override { kill(); }
    void kill() { f->~F(); std::memset(mem, 0xDD, sizeof(F) + 16); free(mem); }
    Obj *copy(bool move) override { return new ObjOf(*this, move); }
    bool assign(Obj *o, bool move) override {
        ObjOf *p = dynamic_cast<ObjOf*>(o);
        if (!p) return false;
        if (move) *f = std::move(*p->f); else *f = *p->f;
        return true;
    }
    bool swapWith(Obj *o) override {
        ObjOf *p = dynamic_cast<ObjOf*>(o);
        if (!p) return false;
        using std::swap; swap(*f, *p->f); return true;
    }
    void reloc() override {       // container growth
        std::vector<F> v; v.push_back(*f); v.reserve(v.capacity() + 1); v.push_back(v[0]); v.erase(v.begin());
        void *old = mem; F *of = f;
        alloc(); f = new (mem) F(v[0]);
        of->~F(); std::memset(old, 0xDD, sizeof(F) + 16); free(old);
    }
    void byval() override { *f = through<F>(through<F>(*f)); }
    void self() override { F &r = *f; *f = r; }
    std::string text() const override {
        const F &g = *f;
        std::string a(g.data(), g.size()), b = g.string(), c(g);
        return a == b && b == c ? b : a + "|" + b + "|" + c;
    }
};

static std::string textOf(const char *name, u128 v)
{
    if (!strcmp(name, "uchar")) return lexi::FormatChar((unsigned char)v).string();
#define X(N, T, F) if (!strcmp(name, N)) return lexi::F(Val<T>::make(v)).string();
    FOR_TYPES(X)
#undef X
    fprintf(stderr, "bad type %s\n", name); exit(3);
}

static size_t wordsOf(const char *name)
{
    if (!strcmp(name, "uchar")) return 1;
#define X(N, T, F) if (!strcmp(name, N)) return Val<T>::words();
    FOR_TYPES(X)
#undef X
    return 4;
}

static Obj *makeObj(const char *name, u128 v)
{
    if (!strcmp(name, "uchar")) return new ObjOf<lexi::FormatChar>(ObjOf<lexi::FormatChar>::Tag<unsigned char>(), (unsigned char)v);
#define X(N, T, F) if (!strcmp(name, N)) return new ObjOf<lexi::F>(typename ObjOf<lexi::F>::template Tag<T>(), Val<T>::make(v));
    FOR_TYPES(X)
#undef X
    fprintf(stderr, "bad type %s\n", name); exit(3);
}

static Obj *slots[16];

static void logLive(Log &l)
{
    l.raw("\"live\":[");
    bool first = true;
    for (int i = 0; i < 16; i++) if (slots[i]) {
        if (!first) l.raw(",");
        first = false;
        l.raw("[").num(i).raw(",").bytes(slots[i]->text()).raw("]");
    }
    l.raw("]}");
}

static void clearSlots() { for (auto &s: slots) { delete s; s = nullptr; } }

static void heapOp(const char *op, int d, int s)
{
    bool ok = true;
    if (!strcmp(op, "copy")) { slots[d] = slots[s]->copy(false); }
    else if (!strcmp(op, "move")) { slots[d] = slots[s]->copy(true); delete slots[s]; slots[s] = nullptr; }
    else if (!strcmp(op, "assign")) ok = slots[d]->assign(slots[s], false);
    else if (!strcmp(op, "massign")) { ok = slots[d]->assign(slots[s], true); delete slots[s]; slots[s] = nullptr; }
    else if (!strcmp(op, "swap")) ok = slots[d]->swapWith(slots[s]);
    else if (!strcmp(op, "reloc")) slots[d]->reloc();
    else if (!strcmp(op, "byval")) slots[d]->byval();
    else if (!strcmp(op, "self")) slots[d]->self();
    else if (!strcmp(op, "destroy")) { delete slots[d]; slots[d] = nullptr; }
    if (!ok) { fprintf(stderr, "bad heap op %s\n", op); exit(3); }
    Log l;
    l.raw("{\"o\":\"").raw(op).raw("\",\"d\":").num(d).raw(",\"s\":").num(s).raw(",");
    logLive(l);
    emit(l);
}

// THREADS
// -------
// --threads N R: the operations of a session are run by N threads at once, R rounds each, every thread
// in its own order; the distinct events each operation gave are logged with the operation's index.

static void doShared(const char *name, u128 v, const Obj *o)
{
    Log l;
    l.raw("{\"o\":\"shared\",\"t\":\"").raw(name).raw("\",\"v\":").words(v, wordsOf(name)).raw(",\"r\":[");
    l.bytes(o->text()).raw(",").bytes(o->text()).raw("]}");
    emit(l);
}

// EXTRACTOR OBJECTS
// -----------------

struct Rd {
    virtual ~Rd() {}
    virtual Rd *copy() = 0;
    virtual void assign(Rd *o) = 0;
    virtual void swapWith(Rd *o) = 0;
    virtual bool get(const char *t, Log &l) const = 0;
};

#define GET(N, ...) if (!strcmp(t, N)) { typedef __VA_ARGS__ T; T x = T(e); l.words(Val<T>::bits(x), Val<T>::words()); return true; }
static bool getFrom(const lexi::ExtractInt &e, const char *t, Log &l)
{
    GET("i8", int8_t) GET("u8", uint8_t) GET("i16", short) GET("u16", unsigned short) GET("i32", int) GET("u32", unsigned)
    GET("il", long) GET("ul", unsigned long) GET("i64", long long) GET("u64", unsigned long long)
    return false;
}
static bool getFrom(const lexi::ExtractEnum &e, const char *t, Log &l)
{
    GET("ei8", EI8) GET("eu8", EU8) GET("ei16", EI16) GET("eu16", EU16) GET("ei32", EI32) GET("eu32", EU32)
    GET("ei64", EI64) GET("eu64", EU64) GET("eplain", EPlain) GET("echar", EChar) GET("elong", ELong)
    GET("ewchar", EWchar) GET("ec16", EC16) GET("ec32", EC32) GET("eulong", EULong) GET("eflag", EFlag)
    return false;
}
static bool getFrom(const lexi::ExtractFloat &e, const char *t, Log &l)
{
    GET("f32", float) GET("f64", double) GET("f80", long double)
    return false;
}
static bool getFrom(const lexi::ExtractBool &e, const char *t, Log &l) { GET("bool", bool) return false; }
static bool getFrom(const lexi::ExtractChar &e, const char *t, Log &l) { GET("char", char) GET("u8", unsigned char) return false; }
static bool getFrom(const lexi::ExtractNull &e, const char *t, Log &l)
{
    if (strcmp(t, "null")) return false;
    std::nullptr_t a = e.null(); std::nullptr_t b(static_cast<std::nullptr_t>(e));
    l.words(a == b ? 0 : 1, 1);
    return true;
}

template <typename C> struct RdOf: Rd {
    void *mem; C *f;
    void alloc() { mem = malloc(sizeof(C) + 16); std::memset(mem, 0xEE, sizeof(C) + 16); }
    RdOf(const std::string &s) { alloc(); try { f = new (mem) C(s); } catch (...) { free(mem); throw; } }
    RdOf(const RdOf &o) { alloc(); f = new (mem) C(*o.f); }
    ~RdOf() override { f->~C(); std::memset(mem, 0xDD, sizeof(C) + 16); free(mem); }
    Rd *copy() override { return new RdOf(*this); }
    void assign(Rd *o) override { *f = *dynamic_cast<RdOf &>(*o).f; }
    void swapWith(Rd *o) override { using std::swap; swap(*f, *dynamic_cast<RdOf &>(*o).f); }
    bool get(const char *t, Log &l) const override { return getFrom(*f, t, l); }
};

static Rd *makeRd(const char *c, const std::string &s)
{
    if (!strcmp(c, "int")) return new RdOf<lexi::ExtractInt>(s);
    if (!strcmp(c, "enum")) return new RdOf<lexi::ExtractEnum>(s);
    if (!strcmp(c, "float")) return new RdOf<lexi::ExtractFloat>(s);
    if (!strcmp(c, "bool")) return new RdOf<lexi::ExtractBool>(s);
    if (!strcmp(c, "char")) return new RdOf<lexi::ExtractChar>(s);
    if (!strcmp(c, "null")) return new RdOf<lexi::ExtractNull>(s);
    fprintf(stderr, "bad extractor %s\n", c); exit(3);
}

static Rd *rds[16];

static bool readerOp(const char *op, const char *a, const char *b, const char *c)
{
    int d = a ? atoi(a) : 0, s = b ? atoi(b) : 0;
    Log l;
    if (!strcmp(op, "rnew")) {
        std::string *text = new std::string(unhex(c));        // dies before the first read
        l.raw("{\"o\":\"rnew\",\"d\":").num(d).raw(",\"c\":\"").raw(b).raw("\",\"s\":").bytes(*text);
        const char *k = "ret";
        Rd *r = nullptr;
        try { r = makeRd(b, *text); } catch (const std::runtime_error &) { k = "throw"; } catch (...) { k = "other"; }
        if (r) { delete rds[d]; rds[d] = r; }
        if (!text->empty()) std::memset(&(*text)[0], '4', text->size());
        delete text;
        l.raw(",\"k\":\"").raw(k).raw("\"}");
        emit(l);
        return true;
    }
    if (op[0] != 'r' || strcmp(op, "rcopy") && strcmp(op, "rassign") && strcmp(op, "rswap") && strcmp(op, "rself") && strcmp(op, "rdrop") && strcmp(op, "rget")) return false;
    l.raw("{\"o\":\"").raw(op).raw("\",\"d\":").num(d);
    if (!strcmp(op, "rget")) {
        if (!rds[d]) { fprintf(stderr, "no reader\n"); exit(3); }
        l.raw(",\"t\":\"").raw(b).raw("\",\"x\":");
        if (!rds[d]->get(b, l)) { fprintf(stderr, "bad reader type %s\n", b); exit(3); }
    } else {
        if (!strcmp(op, "rcopy")) { Rd *n = rds[s]->copy(); delete rds[d]; rds[d] = n; }
        else if (!strcmp(op, "rassign")) rds[d]->assign(rds[s]);
        else if (!strcmp(op, "rswap")) rds[d]->swapWith(rds[s]);
        else if (!strcmp(op, "rself")) rds[d]->assign(rds[d]);
        else { delete rds[d]; rds[d] = nullptr; }
        l.raw(",\"s\":").num(s);
    }
    l.raw("}");
    emit(l);
    return true;
}

static void clearReaders() { for (auto &r: rds) { delete r; r = nullptr; } }

// PROCESS-WIDE STATE
// ------------------

static std::string world()
{
    const char *c = setlocale(LC_ALL, nullptr);
    std::string r = c ? c : "?";
    r += "|" + std::locale().name() + "|" + std::to_string(fegetround()) + "|" + std::to_string(fegetexcept());
    return r;
}
static std::string &worldAtStart() { static std::string *w = new std::string; return *w; }

// What is allocated now, in bytes (counting build only).
#ifdef COUNT_ALLOC
#include <malloc.h>
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static long long live, peak, blocks;
static bool armed; static long allocs, failAt; static bool failRest;       // --oom
static bool refuse() { if (!armed) return false; ++allocs; return allocs == failAt || (failRest && failAt && allocs > failAt); }
static void *took(void *p) { if (p) { ++blocks; live += malloc_usable_size(p); if (live > peak) peak = live; } return p; }
void *malloc(size_t n) { return refuse() ? nullptr : took(__libc_malloc(n)); }
void free(void *p) { if (p) { --blocks; live -= malloc_usable_size(p); } __libc_free(p); }
void *calloc(size_t a, size_t b) { return refuse() ? nullptr : took(__libc_calloc(a, b)); }
void *realloc(void *q, size_t n) { if (refuse()) return nullptr; long long o = q ? malloc_usable_size(q) : 0; void *p = __libc_realloc(q, n); if (q && (p || !n)) { --blocks; live -= o; } return took(p); }
void *memalign(size_t a, size_t n) { return refuse() ? nullptr : took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
}
#else
static long long live, peak, blocks;
static bool armed; static long allocs, failAt; static bool failRest;
#endif

static bool dispatch(const char *op, const char *a, const char *b);
struct Op { std::string op, a, b; Obj *shared; };

static void runOp(const Op &o)
{
    if (o.op == "json" || o.op == "esc" || o.op == "pass") doStr(o.op.c_str(), unhex(o.a.c_str()));
    else if (o.op == "shared") doShared(o.a.c_str(), parseHex(o.b.c_str()), o.shared);
    else if (o.op == "life") {
        u128 v = parseHex(o.b.c_str());
        std::unique_ptr<Obj> p(makeObj(o.a.c_str(), v)), q(p->copy(false)), r(q->copy(true));
        r->assign(p.get(), false); r->swapWith(p.get()); r->reloc(); r->byval(); r->self(); q->assign(r.get(), true);
        q->text();
    } else if (o.op == "rlife") {
        try {
            std::unique_ptr<Rd> p(makeRd(o.a.c_str(), unhex(o.b.c_str()))), q(p->copy());
            p->assign(q.get()); p->swapWith(q.get()); p->assign(p.get());
        } catch (const std::runtime_error &) {}
    }
    else dispatch(o.op.c_str(), o.a.c_str(), o.b.c_str());
}

static void runThreads(std::vector<Op> &ops, int n, int rounds)
{
    for (auto &o: ops) if (o.op == "shared") o.shared = makeObj(o.a.c_str(), parseHex(o.b.c_str()));
    std::vector<std::vector<std::set<std::string>>> seen(n, std::vector<std::set<std::string>>(ops.size()));
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
        std::vector<std::string> mine;
        sink = &mine;
        ready++;
        while (ready < n) {}
        for (int r = 0; r < rounds; r++) for (size_t i = 0; i < ops.size(); i++) {
            size_t k = r % 3 == 0 ? i : r % 3 == 1 ? (i + t) % ops.size() : ops.size() - 1 - (i + t * 3 + r) % ops.size();
            mine.clear();
            runOp(ops[k]);
            for (size_t j = 0; j < mine.size(); j++) {
                std::string x = "{\"i\":" + std::to_string(k) + ",\"j\":" + std::to_string(j) + ",\"e\":" + mine[j] + "}";
                if (seen[t][k].size() < 20) seen[t][k].insert(x);
            }
        }
        sink = nullptr;
    });
    for (auto &t: ts) t.join();
    for (size_t k = 0; k < ops.size(); k++) {
        std::set<std::string> all;
        for (int t = 0; t < n; t++) all.insert(seen[t][k].begin(), seen[t][k].end());
        for (auto &x: all) { fputs(x.c_str(), out); fputc('\n', out); }
    }
    fflush(out);
    for (auto &o: ops) { delete o.shared; o.shared = nullptr; }
    ops.clear();
}

// --fork: every operation in a process of its own in which nothing ran before.
static void runForked(std::vector<Op> &ops)
{
    for (size_t k = 0; k < ops.size(); k++) {
        int fd[2]; if (pipe(fd)) exit(3);
        fflush(out);
        pid_t pid = fork();
        if (pid < 0) exit(3);
        if (pid == 0) {
            close(fd[0]);
            std::vector<std::string> mine;
            sink = &mine;
            if (ops[k].op == "shared") ops[k].shared = makeObj(ops[k].a.c_str(), parseHex(ops[k].b.c_str()));
            runOp(ops[k]);
            std::string t;
            for (size_t j = 0; j < mine.size(); j++) t += "{\"i\":" + std::to_string(k) + ",\"j\":" + std::to_string(j) + ",\"e\":" + mine[j] + "}\n";
            size_t at = 0;
            while (at < t.size()) { ssize_t n = write(fd[1], t.data() + at, t.size() - at); if (n <= 0) _exit(3); at += n; }
            _exit(0);
        }
        close(fd[1]);
        char buf[4096]; std::string t; ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "child died\n"); abort(); }
        fputs(t.c_str(), out);
    }
    fflush(out);
    ops.clear();
}

// --mem: repeat each operation and see whether what is allocated keeps growing.
static void runMem(std::vector<Op> &ops)
{
    for (auto &o: ops) {
        std::vector<std::string> mine;
        sink = &mine;
        if (o.op == "shared") continue;
        long long at[5];
        for (int b = 0; b < 5; b++) {
            for (int r = 0; r < 4; r++) { runOp(o); mine.clear(); }
            std::vector<std::string>().swap(mine);
            at[b] = live;
        }
        long long grow = 1 << 20;
        for (int b = 1; b < 5; b++) if (at[b] - at[b - 1] < grow) grow = at[b] - at[b - 1];
        sink = nullptr;
        Log l;
        l.raw("{\"o\":\"mem\",\"op\":\"").raw(o.op.c_str()).raw("\",\"t\":\"").raw(o.b == "-" ? "" : o.a.c_str()).raw("\",\"calls\":4,\"grow\":").num(grow).raw("}");
        emit(l);
    }
    ops.clear();
}

static char kept[1 << 16]; static size_t keptSize;
static void keep(const std::string &s) { keptSize = s.size() < sizeof kept ? s.size() : sizeof kept; std::memcpy(kept, s.data(), keptSize); }
static std::string shown(bool ok) { return ok ? std::string(kept, keptSize) : std::string(); }

#ifdef OOM
// --oom: each allocation a call makes fails in turn, alone and with all that follow.
// call: does it, leaving its result where show finds it; show(true): the result, show(false): what a failed call left.
static void starve(const Op &o, const char *how, const std::function<void()> &call, const std::function<std::string(bool)> &show)
{
    struct Seen { int kind; std::string text; long long grow; };
    long used = 0;
    auto attempt = [&](long n, bool rest) {
        Seen r; r.kind = 0;
        long long before = blocks;
        allocs = 0; failAt = n; failRest = rest;
        armed = true;
        try { call(); armed = false; }
        catch (const std::bad_alloc &) { armed = false; r.kind = 2; }
        catch (const std::runtime_error &) { armed = false; r.kind = 1; }
        catch (...) { armed = false; r.kind = 3; }
        used = allocs;
        static char text[1 << 16]; size_t len;
        { std::string t = show(r.kind == 0); len = t.size() < sizeof text ? t.size() : sizeof text; std::memcpy(text, t.data(), len); }
        r.grow = blocks - before;          // by now call and show have thrown away what they made
        r.text.assign(text, len);
        return r;
    };
    Seen full = attempt(0, false);
    full = attempt(0, false);
    long n = used < 40 ? used : 40;
    std::vector<Seen> seen;
    long long grow = full.grow;
    for (long k = 1; k <= n; k++) for (int rest = 0; rest < 2; rest++) {
        Seen a = attempt(k, rest != 0), b = attempt(k, rest != 0);
        if (b.grow > grow) grow = b.grow;
        for (Seen *x: {&a, &b}) {
            bool have = false;
            for (auto &y: seen) have = have || (y.kind == x->kind && y.text == x->text);
            if (!have) seen.push_back(*x);
        }
    }
    Seen after = attempt(0, false);
    Log l;
    auto put = [&](const Seen &x) { l.raw("[").num(x.kind).raw(",").bytes(x.text).raw("]"); };
    l.raw("{\"o\":\"oom\",\"op\":\"").raw(o.op.c_str()).raw("\",\"how\":\"").raw(how).raw("\",\"a\":\"").raw(o.a.c_str()).raw("\",\"b\":\"").raw(o.b.c_str()).raw("\",\"n\":").num(n);
    l.raw(",\"full\":"); put(full);
    l.raw(",\"old\":").bytes(show(false)).raw(",\"r\":[");
    for (size_t i = 0; i < seen.size(); i++) { if (i) l.raw(","); put(seen[i]); }
    l.raw("],\"after\":"); put(after);
    l.raw(",\"grow\":").num(grow).raw("}");
    emit(l);
}

template <typename T, typename F> static void starveFmt(const Op &o, u128 v)
{
    const T x = Val<T>::make(v);
    starve(o, "lexi", [&] { keep(lexi::lexi(x)); }, shown);
    starve(o, "string", [&] { keep(lexi::string(x)); }, shown);
    starve(o, "escape", [&] { keep(lexi::escape(x)); }, shown);
    starve(o, "jsonify", [&] { keep(lexi::jsonify(x)); }, shown);
    starve(o, "object", [&] { F f(x); keep(std::string(f)); keep(f.escape()); keep(f.jsonify()); keep(f.string()); }, shown);
    std::unique_ptr<F> a(new F(otherOf<T>(v)));
    F b(x), c(otherOf<T>(v));
    starve(o, "assign", [&] { *a = b; }, [&](bool) { std::string s = a->string(); a.reset(new F(otherOf<T>(v))); return s; });
    starve(o, "copy", [&] { F d(b); F e(std::move(d)); F g(c); g = std::move(e); keep(g.string()); }, shown);
}
template <typename T> static void starveExt(const Op &o, const std::string &s)
{
    T x;
    auto show = [&](bool ok) { u128 v = Val<T>::bits(x); return ok ? std::string((const char *)&v, 2 * Val<T>::words() < 16 ? 2 * Val<T>::words() : 16) : std::string(); };
    starve(o, "string", [&] { x = lexi::lexi<T>(s); }, show);
    if (s.find('\0') == std::string::npos) starve(o, "chars", [&] { x = lexi::lexi<T>(s.c_str()); }, show);
}
static void starveOp(const Op &o)
{
    const char *a = o.a.c_str();
    if (o.op == "fmt") {
        u128 v = parseHex(o.b.c_str());
#define X(N, T, F) if (!strcmp(a, N)) { starveFmt<T, lexi::F>(o, v); return; }
        FOR_TYPES(X)
#undef X
    } else if (o.op == "ext") {
        std::string s = unhex(o.b.c_str());
#define X(N, T, F) if (!strcmp(a, N)) { starveExt<T>(o, s); return; }
        FOR_TYPES(X)
        X("fpos", std::streampos, x)
#undef X
    } else {
        const std::string s = unhex(a);
        bool nul = s.find('\0') != std::string::npos;
        const char *p = s.c_str();
        if (o.op == "json") { starve(o, "string", [&] { keep(lexi::jsonify(s)); }, shown); if (!nul) starve(o, "chars", [&] { keep(lexi::jsonify(p)); }, shown); }
        else if (o.op == "esc") { starve(o, "string", [&] { keep(lexi::escape(s)); }, shown); if (!nul) starve(o, "chars", [&] { keep(lexi::escape(p)); }, shown); }
        else if (o.op == "pass") { starve(o, "string", [&] { keep(lexi::lexi(s)); keep(lexi::string(s)); }, shown); if (!nul) starve(o, "chars", [&] { keep(lexi::lexi(p)); keep(lexi::string(p)); }, shown); }
        else { fprintf(stderr, "bad op %s\n", o.op.c_str()); exit(3); }
    }
}

#else
static void starveOp(const Op &) { exit(3); }
#endif

// --cost: processor time (us) and memory (bytes) for a text and for one eight times as long (128 kB and 1 MB, or
// less when that takes more than a second already).
// a: what to do; b: prefix:unit:suffix in hex
static void costOp(const Op &o)
{
    std::string q[3];
    { size_t at = 0; for (int i = 0; i < 3; i++) { size_t e = o.b.find(':', at); q[i] = unhex(o.b.substr(at, e == std::string::npos ? e : e - at).c_str()); at = e + 1; } }
    static long long spent;
    if (spent > 30000000) return;          // enough has been seen of slow code
    long long t[3] = {1LL << 40, 1LL << 40, 1LL << 40}, mem[3] = {0, 0, 0}, len[3];
    int i;
    for (i = 0; i < 3; i++) {
        std::string s = q[0];
        len[i] = (1 << 14) << (3 * i);
        while ((long long)s.size() < len[i]) s += q[1];
        s += q[2];
        for (int r = 0; r < 3; r++) {
            long long before = live;
            peak = live;
            timespec x, y;
            clock_gettime(CLOCK_THREAD_CPUTIME_ID, &x);
            try {
                if (o.a == "json") keep(lexi::jsonify(s));
                else if (o.a == "esc") keep(lexi::escape(s));
                else if (o.a == "pass") { keep(lexi::lexi(s)); keep(lexi::string(s)); }
                else if (o.a == "int") { keptSize += (size_t)lexi::lexi<long long>(s) & 1; keptSize += (size_t)lexi::lexi<int8_t>(s.c_str()) & 1; }
                else if (o.a == "float") { keptSize += lexi::lexi<double>(s) > 1; keptSize += lexi::lexi<float>(s.c_str()) > 1; keptSize += lexi::lexi<long double>(s) > 1; }
                else if (o.a == "char") keptSize += lexi::lexi<char>(s) & 1;
                else if (o.a == "bool") keptSize += lexi::lexi<bool>(s);
                else if (o.a == "null") keptSize += lexi::lexi<std::nullptr_t>(s) == nullptr;
                else { fprintf(stderr, "bad op %s\n", o.a.c_str()); exit(3); }
            } catch (const std::runtime_error &) {}
            clock_gettime(CLOCK_THREAD_CPUTIME_ID, &y);
            long long d = (y.tv_sec - x.tv_sec) * 1000000LL + (y.tv_nsec - x.tv_nsec) / 1000;
            if (d < t[i]) t[i] = d;
            if (peak - before > mem[i]) mem[i] = peak - before;
            spent += d;
            if (d > 1000000) break;
        }
        if (mem[i] > 2000000000) mem[i] = 2000000000;
        if (t[i] > 80000000) t[i] = 80000000;
        if (i && t[i] > 1000000) break;
    }
    if (i > 2) i = 2;
    Log l;
    l.raw("{\"o\":\"cost\",\"op\":\"").raw(o.a.c_str()).raw("\",\"b\":\"").raw(o.b.c_str()).raw("\",\"len\":[").num(len[i - 1]).raw(",").num(len[i]);
    l.raw("],\"us\":[").num(t[i - 1]).raw(",").num(t[i]).raw("],\"mem\":[").num(mem[i - 1]).raw(",").num(mem[i]).raw("]}");
    emit(l);
}

static int mode;      // 0: one after the other; 1: threads; 2: fork; 3: mem; 4: oom; 5: cost
static int threads = 0, rounds = 0;
static void runQueue(std::vector<Op> &q)
{
    if (q.empty()) return;
    if (mode == 1) runThreads(q, threads, rounds);
    else if (mode == 2) runForked(q);
    else if (mode == 3) runMem(q);
    else { for (auto &o: q) if (mode == 4) starveOp(o); else costOp(o); q.clear(); }
}

// MAIN
// ----

static bool dispatch(const char *op, const char *a, const char *b)
{
    if (!strcmp(op, "fmt")) {
        if (!strcmp(a, "fpos")) { doFmtPos<std::streampos>(parseHex(b)); return true; }
#define X(N, T, F) if (!strcmp(a, N)) { doFmt<T, lexi::F>(N, parseHex(b)); return true; }
        FOR_TYPES(X)
#undef X
    } else if (!strcmp(op, "views")) {
        if (!strcmp(a, "uchar")) { doViews<unsigned char, lexi::FormatChar, char>("char", parseHex(b)); return true; }
        if (!strcmp(a, "nulld")) { doViewsNull(); return true; }
#define X(N, T, F) if (!strcmp(a, N)) { doViews<T, lexi::F, T>(N, parseHex(b)); return true; }
        FOR_TYPES(X)
#undef X
    } else if (!strcmp(op, "rt")) {
        if (!strcmp(a, "fpos")) { doRt<std::streampos>("fpos", parseHex(b)); return true; }
#define X(N, T, F) if (!strcmp(a, N)) { doRt<T>(N, parseHex(b)); return true; }
        FOR_TYPES(X)
#undef X
    } else if (!strcmp(op, "ext")) {
        if (!strcmp(a, "fpos")) { doExt<std::streampos>("fpos", unhex(b)); return true; }
#define X(N, T, F) if (!strcmp(a, N)) { doExt<T>(N, unhex(b)); return true; }
        FOR_TYPES(X)
#undef X
    }
    return false;
}

static int run(int argc, char **argv)
{
    if (argc < 3) return 3;
    FILE *in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    if (!in || !out) return 3;
    for (int i = 3; i + 1 < argc; i++) if (!strcmp(argv[i], "--locale")) {
        if (!setlocale(LC_ALL, argv[i + 1])) { fprintf(stderr, "no locale\n"); return 4; }
        try { std::locale::global(std::locale(argv[i + 1])); } catch (...) { fprintf(stderr, "no C++ locale\n"); return 4; }
        setlocale(LC_ALL, argv[i + 1]);
    }
    for (int i = 3; i + 2 < argc; i++) if (!strcmp(argv[i], "--threads")) { mode = 1; threads = atoi(argv[i + 1]); rounds = atoi(argv[i + 2]); }
    for (int i = 3; i < argc; i++) {
        if (!strcmp(argv[i], "--fork")) mode = 2;
        if (!strcmp(argv[i], "--mem")) mode = 3;
        if (!strcmp(argv[i], "--oom")) mode = 4;
        if (!strcmp(argv[i], "--cost")) mode = 5;
        if (!strcmp(argv[i], "--round")) {
            const int how[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
            if (fesetround(how[atoi(argv[i + 1]) & 3])) return 4;
        }
    }
    worldAtStart() = world();
    std::vector<Op> queue;
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, in)) > 0) {
        char *save, *op = strtok_r(line, " \n", &save);
        if (!op) continue;
        char *a = strtok_r(nullptr, " \n", &save), *b = strtok_r(nullptr, " \n", &save), *c = strtok_r(nullptr, " \n", &save);
        if (!strcmp(op, "S")) {
            runQueue(queue);
            clearSlots(); clearReaders(); fputs("S\n", out); fflush(out);
        }
        else if (mode) queue.push_back(Op{op, a ? a : "-", b ? b : "-", nullptr});
        else if (!strcmp(op, "shared")) { std::unique_ptr<Obj> o(makeObj(a, parseHex(b))); doShared(a, parseHex(b), o.get()); }
        else if (!strcmp(op, "json") || !strcmp(op, "esc") || !strcmp(op, "pass")) doStr(op, unhex(a));
        else if (!strcmp(op, "base")) {      // must precede every other use of the library in this process
            int fd[2]; if (pipe(fd)) return 3;
            fflush(out);
            pid_t pid = fork();
            if (pid < 0) return 3;
            if (pid == 0) {
                std::string t = textOf(a, parseHex(b));
                if (write(fd[1], t.data(), t.size()) != (ssize_t)t.size()) _exit(3);
                _exit(0);
            }
            close(fd[1]);
            char buf[256]; std::string t; ssize_t k;
            while ((k = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, k);
            close(fd[0]);
            int st; waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "base: child died\n"); abort(); }
            Log l;
            l.raw("{\"o\":\"base\",\"t\":\"").raw(a).raw("\",\"v\":").words(parseHex(b), wordsOf(a)).raw(",\"r\":").bytes(t).raw("}");
            emit(l);
        }
        else if (!strcmp(op, "new")) {
            int d = atoi(a);
            slots[d] = makeObj(b, parseHex(c));
            Log l;
            l.raw("{\"o\":\"new\",\"d\":").num(d).raw(",\"t\":\"").raw(b).raw("\",\"v\":").words(parseHex(c), wordsOf(b)).raw(",");
            logLive(l);
            emit(l);
        }
        else if (!strcmp(op, "env")) {
            Log l;
            std::string w = world();
            l.raw("{\"o\":\"env\",\"a\":").bytes(worldAtStart()).raw(",\"b\":").bytes(w).raw("}");
            emit(l);
        }
        else if (readerOp(op, a, b, c ? c : "-")) {}
        else if (a && dispatch(op, a, b ? b : "-")) {}
        else heapOp(op, a ? atoi(a) : 0, b ? atoi(b) : 0);
    }
    runQueue(queue);
    clearSlots(); clearReaders();
    fclose(out);
    return 0;
}

// --when early: before the initialisers of any other translation unit; twice: there and then from main;
// late: from main and then again, which is what is logged, after all static objects are gone.
static int argCount; static char **args; static const char *when;
__attribute__((constructor(101))) static void early(int argc, char **argv)
{
    argCount = argc; args = argv; when = "main";
    for (int i = 3; i + 1 < argc; i++) if (!strcmp(argv[i], "--when")) when = argv[i + 1];
    if (strcmp(when, "early") && strcmp(when, "twice")) return;
    int r = run(argc, argv);
    if (r) _exit(r);
}
__attribute__((destructor(101))) static void late()
{
    if (strcmp(when, "late")) return;
    int r = run(argCount, args);
    if (r) _exit(r);
}
int main(int argc, char **argv) { return strcmp(when, "early") ? run(argc, argv) : 0; }
