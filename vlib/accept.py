"""Which programs the public interface accepts: every call form on every supported type, compiled one by one when together they do not.
The events {"o":"accept","f":form,"t":type,"ok":0|1} are judged by AcceptOK of Lexi.tla."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core

CXX = {"null": "std::nullptr_t", "bool": "bool", "char": "char", "i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int",
       "il": "long", "ul": "unsigned long", "i64": "long long", "u64": "unsigned long long", "f32": "float", "f64": "double", "f80": "long double", "fpos": "std::streampos",
       "ei8": "EI8", "eu8": "EU8", "ei16": "EI16", "eu16": "EU16", "ei32": "EI32", "eu32": "EU32", "ei64": "EI64", "eu64": "EU64", "eplain": "EPlain", "echar": "EChar", "elong": "ELong",
       "ewchar": "EWchar", "ec16": "EC16", "ec32": "EC32", "eulong": "EULong", "eflag": "EFlag", "ebool": "EBool"}
TEXT = {"string": ("std::string", 'std::string("ab")'), "derived": ("Derived", 'Derived("ab")'), "cstr": ("const char *", '"ab"'), "pchar": ("char *", "buf"), "array": (None, '"ab"')}
CLASS = {"null": "Null", "bool": "Bool", "char": "Char", "f32": "Float", "f64": "Float", "f80": "Float"}
HEAD = """#include <lexi/lexi.hpp>
#include <string>
#include <type_traits>
enum class EI8: int8_t {}; enum class EU8: uint8_t {}; enum class EI16: int16_t {}; enum class EU16: uint16_t {};
enum class EI32: int32_t {}; enum class EU32: uint32_t {}; enum class EI64: int64_t {}; enum class EU64: uint64_t {};
enum EPlain: int {}; enum class EChar: char {}; enum class ELong: long long {};
enum class EBool: bool {}; enum class EWchar: wchar_t {}; enum class EC16: char16_t {}; enum class EC32: char32_t {}; enum class EULong: unsigned long {}; enum EFlag: unsigned short {};
struct Derived: std::string { using std::string::string; };
template <typename T, typename U> void same(const U &) { static_assert(std::is_same<T, U>::value, "result type"); }
"""


def probes():
    out = []
    for fn in ("lexi", "string", "escape", "jsonify"):
        for t, x in CXX.items():
            out.append((fn, t, "%s v{}; const %s c{}; same<std::string>(lexi::%s(v)); same<std::string>(lexi::%s(c)); same<std::string>(lexi::%s(%s{}));" % (x, x, fn, fn, fn, "x_t"), x))
        for t, (x, e) in TEXT.items():
            if x is None:
                code = 'char v[8] = "ab"; const char c[8] = "ab"; same<std::string>(lexi::%s(v)); same<std::string>(lexi::%s(c)); same<std::string>(lexi::%s("ab"));' % (fn, fn, fn)
            else:
                code = "char buf[3] = {}; (void)buf; %s v(%s); %sconst c(%s); same<std::string>(lexi::%s(v)); same<std::string>(lexi::%s(c)); same<std::string>(lexi::%s(x_t(v)));" % (x, e, x + " ", e, fn, fn, fn)
            out.append((fn, t, code, x or "int"))
    for t, x in CXX.items():
        out.append(("extract", t, 'std::string s("1"); const std::string c("1"); const char *p = "1"; same<x_t>(lexi::lexi<x_t>(s)); same<x_t>(lexi::lexi<x_t>(c)); same<x_t>(lexi::lexi<x_t>(std::string("1"))); same<x_t>(lexi::lexi<x_t>(p)); same<x_t>(lexi::lexi<x_t>("1"));', x))
        k = CLASS.get(t, "Enum" if t[0] == "e" else "Int")
        f = "lexi::Format" + k
        if t != "fpos":
            out.append(("format class", t, "const x_t c{}; const %s f(c); %s g(f); g = f; std::string s = static_cast<std::string>(f); same<std::string>(f.string()); same<std::string>(f.escape()); same<std::string>(f.jsonify()); std::string d(f.data(), f.size()), e(f.c_str(), f.length());" % (f, f), x))
            cast = "x_t v = static_cast<x_t>(e); x_t w = static_cast<x_t>(d);" if t != "null" else "x_t v = e.null(); x_t w = d.null();"
            out.append(("extract class", t, "const lexi::Extract%s e(std::string(\"1\")); lexi::Extract%s d(e); d = e; %s (void)v; (void)w;" % (k, k, cast), x))
    return out


class Accept:
    """A source of events without a driver: each op session is one list of probe numbers."""
    label = "compile-time probes"

    def __init__(self):
        self.all, self.faults, self.dir = probes(), [], os.path.dirname(core.tmp("accept/x"))
        if not self.compiles("", "base"):
            raise core.CheckError("the public header does not compile on its own")
        whole = "".join("static void f%d() { typedef %s x_t; %s }\n" % (i, x, code) for i, (_, _, code, x) in enumerate(self.all))
        if self.compiles(whole, "whole"):
            self.ok = [1] * len(self.all)
        else:
            with ThreadPoolExecutor(core.JOBS) as ex:
                self.ok = list(ex.map(lambda i: int(self.compiles("static void f() { typedef %s x_t; %s }\n" % (self.all[i][3], self.all[i][2]), "p%d" % i)), range(len(self.all))))

    def compiles(self, code, name):
        p = os.path.join(self.dir, name + ".cpp")
        with open(p, "w") as f:
            f.write(HEAD + code)
        return subprocess.run(["g++"] + core.BASE_FLAGS + ["-I", core.REPO + "/include", "-fsyntax-only", p], capture_output=True).returncode == 0

    def produce(self, ops):
        return [(n, ['{"o":"accept","f":"%s","t":"%s","ok":%d}' % (self.all[int(i)][0], self.all[int(i)][1], self.ok[int(i)]) for i in s]) for n, s in enumerate(ops)]
