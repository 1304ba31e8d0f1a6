"""What each property's check explores. SETUP[property](check) builds the code and adds op sessions and models."""
import json, os, random, re, struct, subprocess
from . import core, gen, hints, models
from .core import CheckError, Variant, build, tlc, tmp
from .accept import Accept
from .engine import Compare, Source
from .gen import chunked, th

PLAIN = Variant("plain", link=["-pthread"])
ASAN = Variant("asan", cxx="g++", flags=["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], link=["-pthread"])
SETUP = {}


def prop(p):
    def deco(f):
        SETUP[p] = f
        return f
    return deco


def part(rng, xs, k):
    """One in k of xs, chosen at random: a fixed stride could miss a whole kind of input."""
    return xs if k == 1 else rng.sample(xs, (len(xs) + k - 1) // k)


def rng_of(c, salt=0):
    return random.Random("%s-%d-%d" % (c.prop, c.seed, salt))


def plain():
    return Source(build([PLAIN])["plain"], label="g++ -O1")


# ------------------------------------------------------------------ TLC as a generator

def histories(module, cfg, args=()):
    r = tlc(module, cfg, workers=1, args=args, timeout=300, heap="4g")
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"HIST '):
            out.append(json.loads(json.loads(line)[5:]))
    if not out or "Error:" in r["out"]:
        raise CheckError("generator %s produced nothing\n%s" % (module, r["out"][-2000:]))
    return out


def class_texts(alphabet, n):
    h = histories("GenText", "INIT Init\nNEXT Next\nCONSTANTS Alphabet = {%s} N = %d\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % (", ".join(map(str, alphabet)), n))
    return [bytes(x) for x in h] + [b""]


# ------------------------------------------------------------------ integers

@prop("C01")
def c01(c):
    rng = rng_of(c)
    ops = gen.int_fmt(rng, 500 if c.quick else 6000) + gen.int_chunks(rng) + hints.values("fmt", rng)
    for t in ("i16", "u16"):
        if not c.quick:
            ops += ["fmt %s %x" % (t, v) for v in range(65536)]
    c.notes["exhaustive_types"] = ["i8", "u8"] + ([] if c.quick else ["i16", "u16"])
    c.add(plain(), chunked(ops, 100))
    c.models += [models.ints, models.itoa(c.quick)]


INT_CLASSES = [0, 9, 32, 43, 45, 46, 48, 49, 57, 97, 160]


@prop("C02")
def c02(c):
    rng = rng_of(c)
    types = list(gen.NTYPES)
    lex = class_texts(INT_CLASSES, 3 if c.quick else 4)
    ops = []
    for i, s in enumerate(lex):
        for t in rng.sample(types, 3 if c.quick else 2):
            ops.append("ext %s %s" % (t, th(s)))
    for s in gen.int_texts(rng, 150 if c.quick else 2500):
        for t in rng.sample(types, 4) + ["i64", "u64"]:
            ops.append("ext %s %s" % (t, th(s)))
    for i, s in enumerate(gen.byte_contexts() + gen.long_ints()):
        ops.append("ext %s %s" % (types[i * 7 % len(types)], th(s)))
    for s in gen.number_oddities() + hints.tree().numerals(rng):
        ops += ["ext %s %s" % (t, th(s)) for t in rng.sample(types, 3) + ["i64"]]
    for k in (7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-1, 0, 1):
            for sg in ("", "-", "+"):
                for t in types:
                    ops.append("ext %s %s" % (t, th(sg + str((1 << k) + d))))
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 100))
    c.models += [models.ints]


@prop("C03")
def c03(c):
    rng = rng_of(c)
    n = 60 if c.quick else 2500
    ops = gen.int_fmt(rng, n, gen.NTYPES, "rt") + part(rng, hints.values("rt", rng, gen.NTYPES), 2) + hints.floats("rt", rng)
    ops += ["rt bool 0", "rt bool 1", "rt null 0", "rt ebool 0", "rt ebool 1"] + ["rt char %x" % v for v in range(256)]
    ops += ["rt f64 %x" % u for u in gen.f64_values(rng, 6000 if c.quick else 200000, 2 if c.quick else 6) + gen.f64_specials(rng) + gen.f64_hard(rng, 6 if c.quick else 60)]
    ops += ["rt f32 %x" % u for u in gen.f32_values(rng, 1500 if c.quick else 40000) + gen.f32_specials(rng)]
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 150))
    c.models += [models.ints]


# ------------------------------------------------------------------ floats

def f64_ops(c, rng):
    us = gen.f64_values(rng, 9000 if c.quick else 150000, 3 if c.quick else 10) + gen.f64_hard(rng, 1 if c.quick else 30)
    return ["fmt f64 %x" % u for u in us] + hints.floats("fmt", rng)


def doubles(c, more=()):
    rng = rng_of(c)
    ops = gen.uniq(f64_ops(c, rng) + ["fmt f64 %x" % u for u in more])
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 100))


@prop("C04")
def c04(c):
    doubles(c)
    c.add(plain(), [["fmt f64 0", "fmt f64 8000000000000000"]])
    c.models += [models.grisu(c.quick)]


@prop("C05")
def c05(c):
    doubles(c)
    c.models += [models.grisu(c.quick)]


@prop("C06")
def c06(c):
    doubles(c, gen.f64_full_grid(rng_of(c, 3)))
    c.models += [models.layout]


@prop("C07")
def c07(c):
    rng = rng_of(c)
    ops = ["fmt f64 %x" % u for u in gen.f64_specials(rng, 60 if c.quick else 2000)]
    ops += ["fmt f32 %x" % u for u in gen.f32_values(rng, 2500 if c.quick else 60000) + gen.f32_specials(rng)]
    ops += ["fmt f80 %x" % u for u in gen.f80_values(rng, 2500 if c.quick else 40000)]
    ops += ["fmt f64 %x" % u for u in part(rng, gen.f64_values(rng, 100, 1), 20)]
    ops += hints.floats("fmt", rng) + hints.narrow("fmt", rng)
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 60))


FLOAT_CLASSES = [0, 32, 43, 45, 46, 48, 53, 69, 101, 105, 120]


@prop("C08")
def c08(c):
    rng = rng_of(c)
    ops = []
    for t in ("f32", "f64", "f80"):
        ops += ["ext %s %s" % (t, th(s)) for s in gen.float_texts(rng, t, (500 if t == "f80" else 1100) if c.quick else 20000)]
        ops += ["ext %s %s" % (t, th(s)) for s in gen.float_limits(t)]
        ops += ["ext %s %s" % (t, s.encode("utf-8").hex() or "-") for s in gen.FWORDS]
    for i, s in enumerate(gen.byte_contexts()):
        ops.append("ext %s %s" % (("f64", "f32", "f80")[i % 3], th(s)))
    for s in gen.number_oddities():
        ops += ["ext %s %s" % (t, th(s)) for t in ("f64", "f32", "f80")]
    for s in hints.tree().numerals(rng):
        ops += ["ext %s %s" % (t, th(s)) for t in (("f64", "f32") if len(s) < 60 else ("f64",))]
    for i, s in enumerate(gen.long_floats(rng)):
        ops += ["ext %s %s" % (t, th(s)) for t in (("f64", "f32", "f80") if len(s) < 5000 else (("f64", "f32", "f80")[i % 3],))]
    for s in class_texts(FLOAT_CLASSES, 3 if c.quick else 4):
        for t in rng.sample(("f32", "f64", "f80"), 2):
            ops.append("ext %s %s" % (t, th(s)))
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 100))
    c.models += [models.reading]
    c.assumptions.append("hexadecimal floats are not judged")


# ------------------------------------------------------------------ strings and words

TEXT_CLASSES = [0, 8, 10, 31, 32, 34, 47, 48, 65, 92, 110, 117, 127, 128, 255]


def text_ops(c, op):
    rng = rng_of(c)
    ts = class_texts(TEXT_CLASSES, 3 if c.quick else 4) + gen.byte_texts(rng, 1500 if c.quick else 20000) + [bytes([a, b]) for a in range(256) for b in (0x22, 0x5c, 0x41, 0x0a)]
    ts += gen.de_bruijn_chunks(rng) + gen.position_sweep(rng) + gen.long_bytes(rng, not c.quick) + gen.utf8_texts(rng, not c.quick)
    ts += gen.de_bruijn_triples(rng, bytes(range(32, 128)) + b"\n\r\0\x80\xe2")
    if not c.quick:
        ts += [bytes([a, b]) for a in range(256) for b in range(256)]
    ts += hints.tree().texts(rng)
    c.notes["byte_pairs"] = "every pair of adjacent bytes, every three of an alphabet, every three-byte UTF-8 sequence" + ("" if c.quick else "; every two-byte string")
    ops = ["%s %s" % (op, th(s)) for s in gen.uniq(ts)]
    rng.shuffle(ops)
    return ops


@prop("C09")
def c09(c):
    c.add(plain(), chunked(text_ops(c, "json"), 60))
    c.models += [models.texts(c.quick)]


@prop("C10")
def c10(c):
    exe = build([PLAIN])["plain"]
    ops = text_ops(c, "esc")
    c.add(Source(exe, label="g++ -O1"), chunked(ops, 60))
    loc = locales(["de_DE.ISO-8859-1"])          # a locale in which bytes from 0x80 up are letters
    if loc:
        ops = ["esc %s" % th(s) for s in gen.byte_texts(rng_of(c, 2), 60)]
        c.add(Source(exe, args=("--locale", "de_DE.ISO-8859-1"), env=loc, label="latin-1 locale"), chunked(ops, 60))
    c.models += [models.texts(c.quick)]


@prop("C11")
def c11(c):
    rng = rng_of(c)
    ops = []
    for s in gen.word_texts(rng, n=600 if c.quick else 20000):
        ops += ["ext null " + th(s), "ext bool " + th(s)]
    for s in gen.word_bytes():
        ops += ["ext null " + th(s), "ext bool " + th(s)]
    for s in hints.tree().texts(rng, 300):
        ops += ["ext %s %s" % (t, th(s)) for t in ("null", "bool", "char")]
    for w in class_texts([0, 32, 110, 117, 108], 5 if c.quick else 6):
        ops.append("ext null " + th(w))
    for w in class_texts([116, 114, 117, 101, 84], 5 if c.quick else 6):
        ops.append("ext bool " + th(w))
    for s in gen.byte_texts(rng, 300 if c.quick else 5000):
        ops.append("ext char " + th(s))
        if len(s) < 9:
            ops += ["ext null " + th(s), "ext bool " + th(s)]
    ops += ["fmt null 0", "fmt bool 0", "fmt bool 1", "views null 0", "views bool 0", "views bool 1"]
    ops += ["%s char %x" % (o, v) for o in ("fmt", "views") for v in range(256)] + ["views uchar %x" % v for v in range(256)] + ["views nulld 0"]
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 100))


# ------------------------------------------------------------------ formatter objects

def heap_values(rng):
    f = [0, 1 << 63, f64(1.5), f64(-123456.789e-30), f64(1e21), f64(5e-324), 0x7ff << 52, 0xfff << 52, (0x7ff << 52) | 5, f64(1.7976931348623157e308), f64(-1.2345678901234567e-5), gen.f64_random(rng, 1)[0]]
    i = [("i8", "80"), ("u8", "ff"), ("i16", "8000"), ("u16", "7"), ("i32", "80000000"), ("u32", "ffffffff"), ("il", "8000000000000000"), ("ul", "ffffffffffffffff"),
         ("i64", "1"), ("u64", "8ac7230489e80000"), ("i64", "%x" % rng.getrandbits(63)), ("i32", "0")]
    e = [("ei8", "80"), ("eu64", "ffffffffffffffff"), ("eplain", "5"), ("elong", "8000000000000000"), ("ei32", "fffffff6")]
    return {"int": i, "float": [("f64", "%x" % u) for u in f] + [("f32", "3fc00000"), ("f80", "3fffc000000000000000")], "enum": e,
            "bool": [("bool", "0"), ("bool", "1")], "char": [("char", "41"), ("char", "0"), ("char", "ff"), ("char", "22"), ("uchar", "41"), ("uchar", "fe")], "null": [("null", "0"), ("null", "0")]}


f64 = gen.f64


def heap_session(rng, hist, pool):
    """A history over abstract keys -> ops with concrete values (one formatter class)."""
    ks = sorted({h["k"] for h in hist if h["k"]})
    vals = pool if len(pool) < 2 else rng.sample(pool, min(len(pool), max(2, len(ks))))
    key = {k: vals[i % len(vals)] for i, k in enumerate(ks)}
    ops = ["base %s %s" % key[k] for k in ks]
    for h in hist:
        if h["o"] == "new":
            ops.append("new %d %s %s" % ((h["d"],) + key[h["k"]]))
        else:
            ops.append("%s %d %d" % (h["o"], h["d"], h["s"]))
    return ops


def heap_histories(c):
    h = histories("GenHeap", "INIT Init\nNEXT Next\nVIEW View\nCONSTANTS Slots = {1, 2, 3} Keys = {1, 2} Walk = 0\nCONSTRAINT Short\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    w = histories("GenHeap", "INIT Init\nNEXT Next\nCONSTANTS Slots = {1, 2, 3, 4, 5} Keys = {1, 2, 3, 4} Walk = 30\nCONSTRAINT Short\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n",
                  ["-simulate", "num=%d" % (60 if c.quick else 1500), "-depth", "32", "-seed", str(c.seed)])
    return h, w


def base_first(sessions):
    """base ops must run before the library is used in the process: gather them per session, in a run of one session per process group."""
    return sessions


GAUNTLET = [("new", 1, 0, 1), ("new", 2, 0, 2), ("copy", 3, 1, 0), ("new", 4, 0, 3), ("assign", 4, 2, 0), ("self", 1, 0, 0), ("swap", 1, 4, 0), ("byval", 3, 0, 0), ("destroy", 2, 0, 0),
            ("new", 2, 0, 3), ("copy", 5, 2, 0), ("massign", 5, 1, 0), ("move", 1, 3, 0), ("reloc", 4, 0, 0), ("assign", 2, 1, 0), ("destroy", 1, 0, 0), ("new", 1, 0, 2), ("new", 3, 0, 1)]


def shaped_values(rng, full):
    """(type, value) triples to keep alive side by side: every type, every length of text, equal lengths and different ones."""
    out = []
    for t, (bits, signed) in dict(gen.ITYPES, **gen.ETYPES).items():
        top = 1 << (bits - signed)
        groups = []
        for n in range(1, 21):
            lo, hi = (0 if n == 1 else 10 ** (n - 1)), min(10 ** n, top)
            if lo < hi:
                vs = [lo, hi - 1, rng.randrange(lo, hi)]
                groups.append(vs)
                if signed:
                    groups.append([-v if v else -1 for v in vs])
        flat = [v for g in groups for v in g]
        for g in groups:
            out.append([(t, gen.hexof(v, bits)) for v in g])
            out.append([(t, gen.hexof(v, bits)) for v in (g[2], rng.choice(flat), g[0])])
    fl = gen.f64_full_grid(rng)
    shapes = rng.sample(fl, min(len(fl), 150 if not full else 2500)) + [0, 1 << 63, 0x7ff << 52, 0xfff << 52, (0x7ff << 52) | 1]
    for u in shapes:
        v, w = rng.choice(shapes), rng.choice(fl)
        out.append([("f64", "%x" % x) for x in (u, v, w)])
    fs = gen.f32_specials(rng) + gen.f32_values(rng, 40)
    out += [[("f32", "%x" % x) for x in rng.sample(fs, 3)] for _ in range(20)]
    out += [[("f80", "%x" % x) for x in rng.sample(gen.f80_values(rng, 20), 3)] for _ in range(10)]
    out += [[("char", "%x" % ((v + d) & 255)) for d in (0, 1, 97)] for v in range(0, 256, 5)]
    out += [[("bool", a), ("bool", b), ("bool", a)] for a in "01" for b in "01"]
    return out


def gauntlet(vals):
    ops = ["base %s %s" % v for v in gen.uniq(vals)]
    for o, d, s, k in GAUNTLET:
        ops.append("new %d %s %s" % ((d,) + vals[k - 1]) if o == "new" else "%s %d %d" % (o, d, s))
    return ops


@prop("C12")
def c12(c):
    rng = rng_of(c)
    pools = heap_values(rng)
    h, w = heap_histories(c)
    sessions = []
    for hist in h:
        for cls in (("int", "float") if c.quick else ("int", "float", "enum")):
            sessions.append(heap_session(rng, hist, pools[cls]))
    for hist in part(rng, h, 6):
        for cls in ("enum", "bool", "char", "null"):
            sessions.append(heap_session(rng, hist, pools[cls]))
    for n, hist in enumerate(w):
        sessions.append(heap_session(rng, hist, pools[("int", "float", "int", "float", "enum", "char", "bool")[n % 7]]))
    shaped = shaped_values(rng, not c.quick)
    sessions += [gauntlet(v) for v in shaped]
    hint = [o.split()[1:] for o in hints.values("fmt", rng, dict(gen.ITYPES, **gen.ETYPES)) + hints.floats("fmt", rng) * 2]
    byt = {}
    for t, v in hint:
        byt.setdefault(t, []).append((t, v))
    sessions += [gauntlet(rng.sample(vs, 3)) for vs in byt.values() for _ in range((3 if len(vs) < 1500 else 60) if c.quick else 100)]
    c.notes["value_gauntlets"] = len(shaped)
    c.notes["transition_histories"] = len(h)
    c.notes["random_walks"] = len(w)
    exes = build([PLAIN] if c.quick else [PLAIN, ASAN])
    c.add(Source(exes["plain"], label="g++ -O1"), sessions)
    if not c.quick:
        c.add(Source(exes["asan"], label="asan"), part(rng, sessions, 3))
    c.models += [models.heap]


@prop("C13")
def c13(c):
    rng = rng_of(c)
    ops = part(rng, gen.int_fmt(rng, 30 if c.quick else 1500, {t: v for t, v in dict(gen.ITYPES, **gen.ETYPES).items()}, "views"), 2 if c.quick else 1)
    ops += ["views %s %s" % x for t in gen.NTYPES if t != "fpos" for x in [(t, "0"), (t, "1"), (t, "f" * (gen.NTYPES[t][0] // 4)), (t, "8" + "0" * (gen.NTYPES[t][0] // 4 - 1)), (t, "7" + "f" * (gen.NTYPES[t][0] // 4 - 1))]]
    ops += ["views f64 %x" % u for u in part(rng, gen.f64_values(rng, 300 if c.quick else 30000, 1), 4 if c.quick else 1) + part(rng, gen.f64_specials(rng), 5) + [0, 1 << 63, 0x7ff << 52, 0xfff << 52]]
    ops += ["views %s %s" % v for vs in shaped_values(rng, not c.quick) for v in vs[:2]]
    ops += ["views f64 %x" % u for u in part(rng, gen.f64_full_grid(rng), 4 if c.quick else 1)]
    ops += ["views f32 %x" % u for u in part(rng, gen.f32_values(rng, 100), 5) + gen.f32_specials(rng)]
    ops += ["views f80 %x" % u for u in part(rng, gen.f80_values(rng, 50), 5)]
    ops += ["views bool 0", "views bool 1", "views null 0", "views nulld 0"] + ["views %s %x" % (t, v) for t in ("char", "uchar") for v in range(256)]
    ops += part(rng, hints.values("views", rng, dict(gen.ITYPES, **gen.ETYPES)), 6 if c.quick else 1) + hints.floats("views", rng) + ["pass " + th(s) for s in hints.tree().texts(rng, 3000)]
    ops += ["pass " + th(s) for s in gen.byte_texts(rng, 100) + part(rng, gen.position_sweep(rng), 4) + part(rng, gen.long_bytes(rng), 2) + [y for f in gen.FAMOUS for y in (f, f + b"ab", b"ab" + f)]]
    rng.shuffle(ops)
    c.add(plain(), chunked(ops, 60))


def mixed_ops(rng, scale):
    """Every kind of call, boundary-heavy."""
    k = scale
    ops = gen.int_fmt(rng, 20 * k, gen.NTYPES) + hints.mixed(rng)
    ops += ["fmt f64 %x" % u for u in gen.f64_values(rng, 400 * k, 1) + gen.f64_specials(rng)]
    ops += ["fmt f32 %x" % u for u in gen.f32_values(rng, 50 * k) + gen.f32_specials(rng)]
    ops += ["fmt f80 %x" % u for u in gen.f80_values(rng, 50 * k)]
    ops += ["views f64 %x" % u for u in part(rng, gen.f64_values(rng, 50, 1), 20) + gen.f64_longest(rng, 2)]
    ops += ["views %s %s" % (t, h) for t in gen.ITYPES for h in part(rng, gen.int_values(t, rng, 3), 9)]
    ops += ["views %s %s" % (t, h) for t, (b, _) in dict(gen.ITYPES, **gen.ETYPES).items() for h in ("0", "f" * (b // 4), "8" + "0" * (b // 4 - 1), "7" + "f" * (b // 4 - 1))]
    ts = list(gen.NTYPES)
    for s in part(rng, gen.int_texts(rng, 30 * k), 2):
        ops.append("ext %s %s" % (rng.choice(ts), th(s)))
    for i, s in enumerate(gen.run_texts()):
        ops += ["ext %s %s" % (t, th(s)) for t in (ts[i % len(ts)], ("f64", "f32", "f80", "bool", "null", "char")[i % 6])]
    for t in ("f32", "f64", "f80"):
        ops += ["ext %s %s" % (t, th(s)) for s in gen.float_texts(rng, t, 60 * k) + gen.float_limits(t)]
        ops += ["ext %s %s" % (t, s.encode("utf-8").hex() or "-") for s in gen.FWORDS]
    for s in gen.SYNONYMS + part(rng, gen.word_texts(rng, n=40 * k), 3):
        ops += ["ext null " + th(s), "ext bool " + th(s)]
    for s in gen.byte_texts(rng, 60 * k):
        ops.append("%s %s" % (rng.choice(("json", "esc", "pass", "ext char")), th(s)))
    ops += ["json " + th(bytes([v])) for v in range(256)] + ["esc " + th(bytes([v])) for v in range(256)]
    ops += ["rt f64 %x" % u for u in gen.f64_random(rng, 100 * k)]
    ops += ["fmt bool 0", "fmt bool 1", "fmt null 0", "views bool 1", "views null 0", "views nulld 0", "views char 41", "views uchar c1", "fmt char ff"]
    rng.shuffle(ops)
    return ops


@prop("C14")
def c14(c):
    rng = rng_of(c)
    exes = build([ASAN, PLAIN])
    asan = Source(exes["asan"], label="asan+ubsan")
    c.add(asan, chunked(mixed_ops(rng, 4 if c.quick else 60) + ["%s %s" % (o, th(s)) for s in hints.tree().texts(rng, 2000) for o in ("json", "esc")], 120))
    long_ops = ["%s %s" % (o, th(s)) for s in part(rng, gen.long_bytes(rng), 3) for o in ("json", "esc", "pass")] + ["ext %s %s" % (t, th(s)) for s in part(rng, gen.long_bytes(rng), 9) for t in ("bool", "null", "char")]
    long_ops += ["ext i64 " + th(s) for s in part(rng, gen.long_ints(), 2)] + ["ext f64 " + th(s) for s in part(rng, gen.long_floats(rng), 2)]
    c.add(asan, chunked(long_ops, 10))
    # the same in a small stack: a conversion must not need stack in proportion to its input
    small = tmp("small.sh")
    with open(small, "w") as f:
        f.write("#!/bin/sh\nulimit -s 192\nexec %s \"$@\"\n" % exes["plain"])
    os.chmod(small, 0o755)
    c.add(Source(small, label="192 kB stack"), chunked(long_ops, 10))
    c.add(asan, chunked(["fmt f64 %x" % u for u in gen.f64_values(rng, 8000 if c.quick else 120000, 3)], 120))
    pools = heap_values(rng)
    h, w = heap_histories(c)
    c.add(asan, [heap_session(rng, hist, pools[("int", "float", "enum", "char")[n % 4]]) for n, hist in enumerate(w[:40] + part(rng, h, 4))])
    # uninitialised reads, with valgrind on the plain build
    vg = tmp("vg.sh")
    with open(vg, "w") as f:
        f.write("#!/bin/sh\nexec valgrind -q --error-exitcode=66 --exit-on-first-error=yes --expensive-definedness-checks=yes %s \"$@\"\n" % exes["plain"])
    os.chmod(vg, 0o755)
    c.add(Source(vg, label="valgrind"), chunked(mixed_ops(rng, 1)[: 1600 if c.quick else 6000], 100))
    c.notes["instrumentation"] = "g++ -fsanitize=address,undefined -D_GLIBCXX_ASSERTIONS; valgrind memcheck on a sample"
    c.models += [models.dtoa_bounds]


# ------------------------------------------------------------------ configured spellings

CONFIGS = [
    dict(null="", true="1", false="0", nan="?", inf="+", ninf="-"),
    dict(null="nullptr_value", true="affirmative", false="F", nan="not-a-number", inf="positive_infinity", ninf="negative_infinity"),
    dict(null="None", true="True", false="False", nan="nan", inf="inf", ninf="-inf"),
    dict(null="NULL\\\\", true="yes \\\"q\\\"", false="no", nan="N", inf="abcdefghijklmnopqrstuvwxyz012", ninf="-Infinit"),
    dict(null="nul", true="tru", false="falsee", nan="NaNN", inf="Infinityy", ninf="-Infinityyy"),
    dict(null="true", true="false", false="null", nan="Infinity", inf="-Infinity", ninf="NaN"),
    dict(null="x", true="t", false="a much longer spelling of false than any default word", nan="nan(quiet)", inf="1e999", ninf="-1e999"),
]


def c_unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


@prop("C15")
def c15(c):
    rng = rng_of(c)
    cfgs = CONFIGS[:4] if c.quick else CONFIGS
    names = dict(null="LEXI_NULL", true="LEXI_TRUE", false="LEXI_FALSE", nan="LEXI_NAN", inf="LEXI_INFINITY", ninf="LEXI_NEGATIVE_INFINITY")
    vs = [Variant("cfg%d" % i, flags=["-O0"] if c.quick else ["-O1"], link=["-pthread"], defs=['-D%s="%s"' % (names[k], v) for k, v in cfg.items()]) for i, cfg in enumerate(cfgs)]
    vs.append(Variant("cfgdef", flags=["-O0"], link=["-pthread"]))
    exes = build(vs)
    deflt = dict(null="null", true="true", false="false", nan="NaN", inf="Infinity", ninf="-Infinity")
    for i, cfg in enumerate(cfgs + [deflt]):
        w = {k: c_unescape(v).encode() for k, v in cfg.items()}
        ev = '{"o":"config","w":%s}' % json.dumps({k: list(v) for k, v in w.items()}, separators=(",", ":"))
        exe = exes["cfg%d" % i] if cfg is not deflt else exes["cfgdef"]
        ops = []
        for t, vals in (("null", ["0"]), ("bool", ["0", "1"]), ("f64", ["%x" % u for u in gen.f64_specials(rng)[2:14]]), ("f32", ["%x" % u for u in gen.f32_specials(rng)[2:8]]),
                        ("f80", ["%x" % u for u in gen.f80_values(rng, 0)[2:8]]), ("char", ["41", "0"])):
            for v in vals:
                ops += ["fmt %s %s" % (t, v), "views %s %s" % (t, v)]
        words = [w["null"], w["true"], w["false"]]
        for s in gen.word_texts(rng, words, 120 if c.quick else 4000) + [b"null", b"true", b"false", w["nan"], w["inf"]]:
            ops += ["ext null " + th(s), "ext bool " + th(s)]
        c.add(Source(exe, prefix=[ev], label="spellings %s" % cfg), chunked(ops, 80))
    c.notes["configurations"] = [str(x) for x in cfgs]


# ------------------------------------------------------------------ threads

@prop("C16")
def c16(c):
    rng = rng_of(c)
    tsan = Variant("tsan", cxx="g++", flags=["-O1", "-g", "-fsanitize=thread"], link=["-pthread"])
    opt = Variant("opt", flags=["-O2"], link=["-pthread"])
    exes = build([tsan, opt])
    pools = heap_values(rng)
    shared = ["shared %s %s" % v for cls in ("int", "float", "enum", "bool", "char", "null") for v in pools[cls]]
    base = [o for o in mixed_ops(rng, 1) if not o.startswith("base")]

    def sessions(n, k, seed):
        r = random.Random(seed)
        out = []
        for _ in range(n):
            s = r.sample(base, k - 6) + r.sample(shared, 6)
            # equal values in several threads at once, and near-equal ones
            s += [s[0], "fmt f64 3ff8000000000000", "ext f64 " + th("1.5"), "fmt i64 ffffffffffffff85", "ext i32 " + th("-123"), "ext bool " + th("true"), "ext bool " + th("nope"), "json " + th('a"b'), "esc " + th("a b")]
            out.append(s)
        return out
    q = c.quick
    ref = Source(exes["opt"], args=("--threads", "1", "1"), label="alone")
    c.add(Compare(ref, [(Source(exes["opt"], args=("--threads", "8", "60" if q else "400"), label="8 threads"), 0)], by_index=True), sessions(40 if q else 300, 34, "a%d" % c.seed))
    # the sanitizer build: few rounds suffice, a race is reported whatever the schedule; several cold starts
    c.add(Compare(ref, [(Source(exes["tsan"], args=("--threads", "4", "2" if q else "4"), label="tsan"), 0)], by_index=True), sessions(48 if q else 400, 60, "b%d" % c.seed) + chunked(gen.uniq(hints.mixed(rng)), 100))
    c.models += [models.threads]


# ------------------------------------------------------------------ internals

BIGWORDS = [0, 1, 2, 5, 10, 0xffffffff, 0x100000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0x8000000000000000, 0x7fffffffffffffff, 10000000000000000000, 9999999999999999999, 0x6765C793FA10079D, 1220703125, 0xffffffff00000001, 0x00000001ffffffff]


@prop("C17")
def c17(c):
    rng = rng_of(c)
    hint = hints.tree()
    words = BIGWORDS + [rng.getrandbits(64) for _ in range(6)]
    words += hint.ints + [x + d for x in hint.ints for d in (-1, 1) if 0 <= x + d < 1 << 64]
    shifts = [0, 1, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 200, 256, 640, 1000]
    pows = [0, 1, 2, 11, 12, 13, 14, 25, 26, 27, 28, 39, 40, 53, 54, 67, 81, 100, 300]

    def decimals(i):
        n = [0, 1, 2, 18, 19, 20, 37, 38, 39, 57, 58, 100, 300, 767, 900][i % 15]
        k = rng.randrange(6)
        if k == 0:
            s = "9" * n
        elif k == 1:
            s = "1" + "0" * (n - 1) if n else ""
        elif k == 2:
            s = "0" * (n // 2) + "7" * (n - n // 2)
        else:
            s = "".join(rng.choice("0123456789") for _ in range(n))
        if rng.random() < .08 and n:
            p = rng.randrange(n)
            s = s[:p] + rng.choice("/:a -+.\0\xff") + s[p + 1:]
        return s
    hist = histories("GenBig", "INIT Init\nNEXT Next\nCONSTANTS Regs = {1, 2, 3} Words = {1, 2} Pows = {%s} Shifts = {%s} Decimals = {1} Walk = 40\nCONSTRAINT Short\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
                     % (", ".join(map(str, pows)), ", ".join(map(str, shifts))), ["-simulate", "num=%d" % (90 if c.quick else 1500), "-depth", "42", "-seed", str(c.seed)])
    sessions = []
    for n, h in enumerate(hist):
        ops = []
        for op, d, s, k in h:
            if op == "dec":
                ops.append("dec %d %s" % (d, th(decimals(rng.randrange(15)).encode("latin-1"))))
            elif op in ("word", "add", "mul"):
                o = {"word": ("word", "setw"), "add": ("add",), "mul": ("mul", "mul32")}[op]
                ops.append("%s %d %x" % (rng.choice(o), d, rng.choice(words)))
            elif op in ("pow5", "shl"):
                ops.append("%s %d %d" % (op, d, k))
            elif op == "diff":
                if k != d:
                    ops.append("diff %d %d %d" % (d, s, k))
            elif op == "show":
                ops.append(rng.choice(("show %d" % d, "digit %d 0" % d, "digit %d %d" % (d, rng.choice((1, 2, 5, 51, 52, 60))), "eqw %d %x" % (d, rng.choice(words)))))
            else:
                ops.append("%s %d %d" % (op, d, s))
        sessions.append(ops)
    # directed: carries and borrows over whole runs of words
    for w in (0, 1, 2, 3, 5, 30):
        x = (1 << (64 * w + 64)) - 1
        for d in (1, 2, 0xffffffffffffffff, 0x8000000000000000):
            o = ["dec 1 " + th(str(x)), "copy 2 1", "add 1 %x" % d, "diff 3 1 2", "diff 4 2 1", "cmp 1 2", "cmp 2 1", "eq 1 2", "eq 2 2", "shl 2 64", "diff 5 2 1", "shl 1 1", "mul 1 ffffffffffffffff", "diff 6 1 2", "diff 6 2 2",
                 "digit 1 0", "digit 1 %d" % w, "digit 1 %d" % (w + 40)]
            sessions.append(o)
    # directed: numbers of every size that differ in exactly one word, by little
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 17, 20, 31, 32, 33, 40, 51, 52):
        for p in sorted({0, 1, n // 2, n - 1}):
            if p < n:
                x = rng.getrandbits(64 * n) | 1 << (64 * n - 1)
                y = x ^ (rng.choice((1, 1 << 63 - (p == n - 1), 1 << 32, 3)) << (64 * p))
                o = ["dec 1 " + th(str(x)), "dec 2 " + th(str(y)), "cmp 1 2", "cmp 2 1", "eq 1 2", "eq 2 1", "diff 3 1 2", "diff 4 2 1", "eq 3 4", "copy 5 1", "eq 5 1", "cmp 5 1", "assign 5 2", "eq 5 1", "eq 5 2",
                     "mul 5 ffffffffffffffff", "mul32 1 ffffffff", "add 1 ffffffffffffffff", "cmp 1 5", "shl 2 %d" % rng.choice((1, 63, 64, 65)), "cmp 2 1", "diff 6 5 2"]
                sessions.append(o)
    # directed: numbers put together from words that look special on their own
    odd = (0, 1, 2, 5, 0xffffffff, 0x100000000, 0x8000000000000000, 0xffffffffffffffff)
    combos = [(a, b) for a in odd for b in odd[1:]]
    triples = [(a, b, d) for a in odd for b in odd for d in odd[1:]]
    combos += rng.sample(triples, 100) if c.quick else triples
    for t in combos:
        x = sum(w << 64 * i for i, w in enumerate(t))
        set1 = "dec 1 " + th(str(x))
        o = [set1, "copy 2 1", "show 1"] + ["eqw 1 %x" % w for w in sorted(set(t))]
        for op in rng.sample(["mul32 1 7", "mul32 1 ffffffff", "mul 1 7", "mul 1 ffffffffffffffff", "mul 1 0", "mul32 1 0", "mul 1 1", "mul32 1 1", "add 1 1", "add 1 0", "add 1 ffffffffffffffff",
                              "pow5 1 0", "pow5 1 1", "pow5 1 13", "pow5 1 27", "shl 1 0", "shl 1 1", "shl 1 64", "shl 1 67"], 19):
            o += ["assign 1 2", op]
        for w in (0, 1, t[0], t[-1]):
            o += ["word 3 %x" % w, "cmp 2 3", "cmp 3 2", "eq 2 3", "diff 4 2 3", "diff 4 3 2"]
        y = x ^ 1 << 64 * rng.randrange(len(t)) + rng.randrange(64)
        o += ["dec 3 " + th(str(y)), "cmp 2 3", "eq 2 3", "diff 4 2 3", "diff 4 3 2"]
        sessions.append(o)
    for k in shifts:
        sessions.append(["word 1 0", "shl 1 %d" % k, "show 1", "eqw 1 0", "word 2 0", "eq 1 2", "cmp 1 2", "add 1 5", "mul 1 0", "shl 1 %d" % (k + 1), "add 1 1", "pow5 1 1", "show 1"])
        sessions.append(["word 1 1", "shl 1 %d" % k, "word 2 1", "diff 3 1 2", "add 3 1", "eq 3 1", "shl 3 %d" % k, "pow5 3 27", "mul32 3 ffffffff", "word 4 ffffffffffffffff", "shl 4 %d" % k, "diff 5 4 3", "shl 5 %d" % k, "cmp 5 4", "word 6 8000000000000001", "shl 6 %d" % (k + 63), "show 6"])
    for n in range(0, 45):
        sessions.append(["word 1 1", "pow5 1 %d" % n, "word 2 5", "pow5 2 %d" % n, "word 3 ffffffffffffffff", "pow5 3 %d" % n, "diff 4 3 2", "dec 5 " + th("1" * n), "dec 6 " + th("0" * n + "5"), "mul 5 a", "add 5 1", "show 5"])
    for x in hint.ints:
        o = ["word 1 %x" % x, "word 2 %x" % rng.getrandbits(64), "mul 2 %x" % x, "add 2 %x" % x, "mul32 2 %x" % (x & 0xffffffff), "diff 3 2 1", "eqw 1 %x" % x, "cmp 2 1", "dec 4 " + th(str(x)), "dec 5 " + th(str(x) * 3), "eq 4 1"]
        if x <= 1200:
            o += ["word 1 %x" % (rng.getrandbits(64) | 1), "pow5 1 %d" % x, "word 1 %x" % (rng.getrandbits(64) | 1), "shl 1 %d" % x, "dec 6 " + th("".join(rng.choice("0123456789") for _ in range(min(x, 1000)))), "digit 6 %d" % x]
        sessions.append(o)
    # the largest numbers that must fit, and the first beyond the real capacity
    sessions.append(["word 1 1", "shl 1 3327", "word 2 1", "diff 3 1 2", "shl 3 1", "add 3 1", "show 3", "word 4 3", "shl 4 3326", "diff 5 4 3"])
    for s in (26559, 26560, 26623, 26624, 26688, 100000, 4000000):
        sessions.append(["word 1 1", "shl 1 %d" % s, "show 1", "word 2 ffffffffffffffff", "shl 2 %d" % s, "show 2", "word 1 7", "show 1"])
    sessions.append(["word 1 ffffffffffffffff", "shl 1 26560", "add 1 1", "mul 1 2", "word 2 8000000000000000", "shl 2 26560", "mul 2 2", "show 2", "word 3 8000000000000000", "shl 3 26560", "shl 3 1", "word 4 8000000000000000", "shl 4 26560", "pow5 4 1", "show 4"])
    # every size with every distance: shifts, products, sums and differences of numbers of n words
    def number(d, n):
        """Operations that leave a number of exactly n words in register d."""
        if n <= 12:
            return ["dec %d %s" % (d, th(str(rng.getrandbits(64 * n) | 1 << (64 * n - 1))))]
        return ["dec %d %s" % (d, th(str(rng.getrandbits(640) | 1 << 639))), "shl %d %d" % (d, 64 * (n - 10) - 1), "mul %d %x" % (d, rng.getrandbits(64) | 1), "add %d %x" % (d, rng.getrandbits(64))]
    for n in list(range(1, 13)) + [13, 16, 24, 32, 33, 48, 52, 64, 100, 128, 200, 256, 300, 400]:
        offs = list(range(0, 50)) if n < 13 else [0, 1, 2, n - 1, n, n + 1, 2 * n]
        for some in chunked([o for o in offs if o + n < 416], 13):
            ops = number(1, n)
            for o in some:
                ops += ["copy 2 1", "shl 2 %d" % (64 * o + rng.choice((0, 1, 63, rng.randrange(64), rng.randrange(64), rng.randrange(64))))]
            sessions.append(ops)
        ops = number(1, n)
        for _ in range(4):
            ops += ["copy 2 1", "mul 2 %x" % rng.choice(words + [rng.getrandbits(64)]), "copy 3 1", "mul32 3 %x" % rng.choice((0xffffffff, 3, rng.getrandbits(32))), "add 2 %x" % rng.getrandbits(64), "cmp 2 3", "diff 4 2 3", "eq 4 2", "pow5 3 %d" % rng.randrange(80)]
        sessions.append(ops)
        for m in (range(1, n + 1) if n < 13 else (1, 2, n // 2, n - 1, n)):
            sessions.append(number(1, n) + number(2, m) + ["cmp 1 2", "cmp 2 1", "diff 3 1 2", "diff 4 2 1", "eq 3 4", "assign 3 2", "eq 3 2", "assign 2 1", "eq 2 1"])
    for n in range(0, 330, 11):
        sessions.append([o for k in range(n, n + 11) for o in ("word 1 %x" % (rng.getrandbits(64) | 1), "pow5 1 %d" % k)] + ["dec 2 " + th("9" * (3 * n + i)) for i in range(2)])
    rng.shuffle(sessions)
    exes = build([Variant("big", driver="bigdriver.cpp", flags=["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]), Variant("bigp", driver="bigdriver.cpp", flags=["-O2"], wrap={"bigint.cpp": "port_bigint.cpp"})])
    c.add(Source(exes["big"], label="asan+ubsan"), sessions, "BigTrace")
    c.add(Source(exes["bigp"], label="portable paths"), part(rng, sessions, 3), "BigTrace")
    c.models += [models.big]


def hint_patterns(rng):
    h = hints.tree()
    return gen.uniq([x for u in h.ints for x in (u, u ^ (1 << 63))] + h.doubles(rng) + [(0x7ff << 52) | (u & ((1 << 52) - 1)) for u in h.ints])


@prop("C18")
def c18(c):
    rng = rng_of(c)
    exe = build([Variant("ieee", driver="ieeedriver.cpp", flags=["-O2"])])["ieee"]
    us = gen.f64_specials(rng, 200 if c.quick else 5000) + gen.f64_structured() + gen.f64_random(rng, 2000 if c.quick else 60000)
    us += hint_patterns(rng)
    us += [u | (1 << 63) for u in part(rng, us, 2)]
    us += [(0x7fe << 52) | ((1 << 52) - 1), (0xffe << 52) | ((1 << 52) - 1), 1, (1 << 63) | 1]
    ops = ["cls %x" % u for u in gen.uniq(us)] + ["pow10 %d" % n for n in range(0, 309)]
    rng.shuffle(ops)
    c.add(Source(exe, label="g++ -O2"), chunked(ops, 100), "IeeeTrace")
    c.notes["powers_of_ten"] = "all of 0..308"


# ------------------------------------------------------------------ environments

LOCALE_SRC = {"de_DE.UTF-8": ("de_DE", "UTF-8"), "fr_FR.UTF-8": ("fr_FR", "UTF-8"), "en_US.UTF-8": ("en_US", "UTF-8"), "tr_TR.UTF-8": ("tr_TR", "UTF-8"), "de_DE.ISO-8859-1": ("de_DE", "ISO-8859-1"), "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9"), "en_GB.ISO-8859-1": ("en_GB", "ISO-8859-1"),
              "de_CH.UTF-8": ("de_CH", "UTF-8"), "ja_JP.UTF-8": ("ja_JP", "UTF-8")}
COMMA = {"de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9"}


def locales(names):
    """Compile locales into the scratch directory; the environment that makes them visible."""
    d = os.path.dirname(tmp("loc/x"))
    for n in names:
        i, m = LOCALE_SRC[n]
        r = subprocess.run(["localedef", "-i", i, "-f", m, os.path.join(d, n)], capture_output=True, text=True)
        if not os.path.exists(os.path.join(d, n, "LC_NUMERIC")):
            raise CheckError("localedef %s: %s" % (n, r.stderr[-300:]))
    return {"LOCPATH": d}


@prop("C19")
def c19(c):
    rng = rng_of(c)
    names = ["de_DE.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "en_GB.ISO-8859-1", "tr_TR.ISO-8859-9"] if c.quick else list(LOCALE_SRC)
    env = locales(names)
    exe = build([PLAIN])["plain"]
    k = 1 if c.quick else 12
    ops = ["fmt f64 %x" % u for u in part(rng, gen.f64_values(rng, 100 * k, 1), 8 if c.quick else 2) + gen.f64_specials(rng)]
    ops += ["fmt f32 %x" % u for u in part(rng, gen.f32_values(rng, 30 * k), 8)] + ["fmt f80 %x" % u for u in part(rng, gen.f80_values(rng, 30 * k), 6)]
    ops += part(rng, gen.int_fmt(rng, 6 * k, gen.NTYPES), 7 if c.quick else 2)
    ts = list(gen.NTYPES)
    ops += ["ext %s %s" % (rng.choice(ts), th(s)) for s in part(rng, gen.int_texts(rng, 10 * k), 3)] + ["ext %s %s" % (t, th(s)) for t in ts for s in ("1,234,567", "1.234.567", "-1'000", "1 000", "12345678", "1,5")]
    for t in ("f32", "f64", "f80"):
        ops += ["ext %s %s" % (t, th(s)) for s in gen.float_texts(rng, t, 40 * k)] + ["ext %s %s" % (t, th(s)) for s in ("1.5", "-0.25e3", "1,5", "1,234.5", "1.234,5", "15", "1e5", "-7", "1e-5", "123456789", "inf", "nan", "INFINITY", "")]
    ops += ["rt f64 %x" % u for u in gen.f64_random(rng, 200 * k)] + ["rt i64 %x" % rng.getrandbits(64) for _ in range(50)]
    ops += ["ext bool " + th("true"), "ext bool " + th("TRUE"), "fmt bool 1", "fmt null 0"]
    ops += ["%s %s" % (o, th(bytes([v]))) for v in range(256) for o in ("esc", "json", "ext char")[v % 2::2]] + ["ext %s %s" % (t, th(bytes([v]) + b"5")) for v in range(128, 256) for t in ("i32", "f64")] + ["views char %x" % v for v in range(0, 256, 5)]
    ops += part(rng, hints.mixed(rng), 5 if c.quick else 1)
    ops += ["%s %s" % (o, th(x)) for x in gen.byte_texts(rng, 20)[300::60] for o in ("esc", "json")] + ["ext %s %s" % (t, th(x)) for x in ("INFINITY", "infinity", "InFiNiTy", "\xddNF", "\xfdnf", "NAN", "-INF") for t in ("f64", "f32")]
    ops = gen.uniq(ops)
    rng.shuffle(ops)
    ref = Source(exe, label="C locale")
    for n in names:
        c.add(Compare(ref, [(Source(exe, args=("--locale", n), env=env, label=n), 1 if n in COMMA else 0)]), chunked(ops, 50))
    c.notes["locales"] = names
    c.known_lines += known_lines("C19")
    c.assumptions.append("locales are compiled with localedef into a scratch directory")


def known_lines(p):
    out = []
    with open(os.path.join(core.ROOT, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % p):
                out.append(line.split(" ", 2)[2].strip())
    return out


@prop("C20")
def c20(c):
    acc = Accept()
    c.add(acc, chunked([str(i) for i in range(len(acc.all))], 40))
    if 0 in acc.ok:                  # the driver needs the same forms
        return
    rng = rng_of(c)
    ops = []
    for t, (bits, signed) in gen.NTYPES.items():
        vs = gen.int_values(t, rng, 10 if c.quick else 300)
        if c.quick and bits > 8:
            vs = part(rng, vs, 3)
        ops += ["fmt %s %s" % (t, v) for v in vs]
        if t != "fpos":
            ops += ["views %s %s" % (t, v) for v in part(rng, vs, 4)]
        for s in ("65", "-1", "A", "7x", "", "0", "255", "-128", "true", "1.5", "4294967295", "-9223372036854775808", "18446744073709551615", " 42 ", "\x41", "-0"):
            ops.append("ext %s %s" % (t, th(s)))
    ops += ["%s bool %d" % (o, v) for o in ("fmt", "views") for v in (0, 1)] + ["fmt null 0", "views null 0", "views nulld 0"] + ["%s char %x" % (o, v) for o in ("fmt", "views") for v in range(256)] + ["views uchar %x" % v for v in range(0, 256, 7)]
    ops += ["%s ebool %d" % (o, v) for o in ("fmt", "views") for v in (0, 1)] + ["ext ebool " + th(s) for s in ("0", "1", " 1x", "x")]
    for s in ("A", "65", "", "true", "false", "null", "1", "0", "\0", "\xff", "nullx"):
        ops += ["ext %s %s" % (t, th(s)) for t in ("char", "bool", "null")]
    for t in ("f32", "f64", "f80"):
        for s in ("1.5", "7", "-2e3", "inf", "NaN", "", "true", "16777217", "0.1", "1e40", "1e-320"):
            ops.append("ext %s %s" % (t, th(s)))
    ops += ["fmt f64 %x" % u for u in part(rng, gen.f64_values(rng, 50, 1), 30) + gen.f64_specials(rng)] + ["fmt f32 %x" % u for u in part(rng, gen.f32_values(rng, 20), 10) + gen.f32_specials(rng)] + ["fmt f80 %x" % u for u in part(rng, gen.f80_values(rng, 20), 4)]
    ops += ["views f64 %x" % u for u in part(rng, gen.f64_values(rng, 10, 1), 200)] + ["views f32 %x" % u for u in part(rng, gen.f32_values(rng, 10), 100)]
    ops += ["pass " + th(s) for s in part(rng, gen.byte_texts(rng, 20), 9)]
    ops += [o for o in hints.mixed(rng) if o[:2] != "rt"] + part(rng, hints.values("fmt", rng, gen.NTYPES), 4)
    ops = gen.uniq(ops)
    rng.shuffle(ops)
    readers = []
    for cls, ts in READER_TYPES.items():         # the extractor classes themselves
        for x in ("65", "-1", "A", "", "255", "-129", "4294967296", "-9223372036854775809", "1.5", "0.1", "16777217", "inf", "1e-46", "true", "false", "null", "\xff"):
            if cls in ("int", "enum", "float") or cls == "char" and x or (cls, x) in (("bool", "true"), ("bool", "false"), ("null", "null")):
                readers.append(["rnew 1 %s %s" % (cls, th(x))] + ["rget 1 %s" % t for t in ts])
    c.add(plain(), chunked(ops, 60) + readers)


PORT = {"diyfp.cpp": "port_diyfp.cpp", "bigint.cpp": "port_bigint.cpp", "dtoa.cpp": "port_dtoa.cpp"}


@prop("C21")
def c21(c):
    rng = rng_of(c)
    L = ["-pthread"]
    vs = [PLAIN,
          Variant("o0port", flags=["-O0"], wrap=PORT, link=L),
          Variant("o3uchar", flags=["-O3", "-funsigned-char", "-std=c++17"], link=L),
          Variant("clang", cxx="clang++", flags=["-O2", "-fno-elide-constructors", "-DNDEBUG"], link=L),
          Variant("os", flags=["-Os", "-std=c++20", "-fno-elide-constructors"], link=L),
          Variant("clangport", cxx="clang++", flags=["-O1", "-funsigned-char"], wrap=PORT, link=L)]
    if not c.quick:
        vs += [Variant("clangport3", cxx="clang++", flags=["-O3"], wrap=PORT, link=L), Variant("o2", flags=["-O2", "-fno-elide-constructors"], link=L),
               Variant("clango0", cxx="clang++", flags=["-O0", "-funsigned-char"], link=L), Variant("o2pic", flags=["-O2", "-fPIC", "-flto"], link=L), Variant("cxx17", flags=["-O2", "-std=c++17"], link=L), Variant("port3", flags=["-O3", "-march=native"], wrap=PORT, link=L)]
    exes = build(vs)
    k = 1 if c.quick else 20
    ops = mixed_ops(rng, k) + hints.narrow("fmt", rng) + ["fmt f64 %x" % u for u in gen.f64_values(rng, 1000 * k, 1)]
    ops += ["json " + th(bytes([v])) for v in range(128, 256)] + ["esc " + th(bytes([v])) for v in range(128, 256)]
    rng.shuffle(ops)
    ops = [o for o in ops if " echar " not in o]      # an enumeration over plain char: its values themselves depend on char signedness
    sessions = chunked(ops, 80)
    pools = heap_values(rng)
    h, w = heap_histories(c)
    heap = [heap_session(rng, x, pools[("int", "float", "enum", "char")[n % 4]]) for n, x in enumerate((w[:10] + part(rng, h, 12)) if c.quick else w + h)]
    ref = Source(exes["plain"], label="g++ -O1")
    c.add(Compare(ref, [(Source(exes[v.name], label=v.name), 0) for v in vs[1:]]), sessions)
    c.add(Compare(ref, [(Source(exes[v.name], label=v.name), 0) for v in vs[1:]]), heap)
    c.notes["builds"] = ["%s: %s %s%s" % (v.name, v.cxx, " ".join(v.flags), " portable paths" if v.wrap else "") for v in vs]


# ------------------------------------------------------------------ histories of calls

@prop("C22")
def c22(c):
    rng = rng_of(c)
    L = ["-pthread"]
    exes = build([PLAIN, Variant("count", flags=["-O1"], link=L, defs=["-DCOUNT_ALLOC"])])
    hint = hints.mixed(rng)
    base = gen.uniq(mixed_ops(rng, 1) + hint)
    pools = heap_values(rng)
    shared = ["shared %s %s" % v for cls in pools for v in pools[cls]]
    failing = ["ext %s %s" % (t, th(x)) for t in ("null", "bool", "char") for x in ("", "nope", "true", "null", "False", "0", "nulL") if t != "char" or not x]

    def neighbours():
        """One value and its near misses: texts that agree in a prefix, values that agree in some bits, the same value in other types."""
        k = rng.randrange(8)
        if k == 0:
            u = rng.choice(gen.f64_random(rng, 50))
            return ["%s f64 %x" % (o, u ^ x) for x in (0, 1, 1 << 32, 1 << 63, 1 << 52, 1 << 20) for o in ("fmt", "rt")]
        if k == 1:
            v = rng.getrandbits(63)
            return ["fmt %s %x" % (t, (v ^ x) & ((1 << gen.NTYPES[t][0]) - 1)) for t in ("i64", "u64", "i32", "u32", "i16", "u8", "ei64", "fpos") for x in (0, 1, 1 << 31, 1 << 63)]
        if k == 2:
            s = "%d.%de%d" % (rng.randint(-9, 9), rng.getrandbits(60), rng.randint(-300, 300))
            return ["ext %s %s" % (t, th(s[:n] + y)) for t in ("f64", "f32", "f80", "i64") for n in (len(s), len(s) - 1, 3, 2) for y in ("", "1")]
        if k == 3:
            s = str(rng.getrandbits(63))
            return ["ext %s %s" % (t, th(p + s[:n])) for t in ("i64", "u64", "i32", "u8", "fpos", "eu16") for n in (len(s), len(s) - 1, 2) for p in ("", "-")]
        if k == 4:
            s = bytes(rng.getrandbits(8) for _ in range(12))
            return ["%s %s" % (o, th(s[:n] + y)) for o in ("json", "esc", "pass") for n in (12, 11, 3) for y in (b"", b'"')]
        if k == 5:
            return ["ext %s %s" % (t, th(x)) for t in ("bool", "null", "char") for x in ("true", "tru", "truer", "false", "null", "nul", "", "t")]
        if k == 6:
            return ["fmt f64 %x" % u for u in rng.sample(gen.f64_specials(rng), 6)] + ["fmt f64 %x" % u for u in rng.sample(gen.f64_longest(rng, 1), 4)] + ["views f64 3ff8000000000000", "views f64 1"]
        return ["views char %x" % v for v in rng.sample(range(256), 6)] + ["fmt char %x" % v for v in rng.sample(range(256), 6)] + ["views bool 0", "views bool 1", "views null 0", "fmt bool 1", "fmt bool 0"]
    q = c.quick
    sessions = []
    for n in range(120 if q else 2500):
        s = gen.uniq(neighbours() + rng.sample(base, 14) + rng.sample(shared, 2) + rng.sample(failing, 4))
        rng.shuffle(s)
        sessions.append(s)
    rng.shuffle(hint)
    sessions += chunked(hint, 60)
    c.add(Compare(Source(exes["plain"], args=("--fork",), label="pristine process per call"),
                  [(Source(exes["plain"], args=("--threads", "1", "7"), label="one history, several orders"), 0)], by_index=True), sessions)
    # long lives: the same few calls of every kind, again and again in one process
    lives = []
    for n in range(8):
        s = neighbours() + rng.sample(base, 4) + rng.sample(failing, 1)
        s = rng.sample(s, min(len(s), 9)) + ["fmt f64 %x" % rng.choice(gen.f64_random(rng, 5)), "ext %s %s" % (rng.choice(("i64", "f64")), th(str(rng.getrandbits(40)))), "json " + th("a\"\n%d" % n), "esc " + th("a b%d" % n), "ext bool " + th("true"), "ext null " + th("null"), "ext char " + th("q"), "fmt char 71", "fmt bool 1", "fmt null 0"]
        lives.append(gen.uniq(s))
    c.add(Compare(Source(exes["plain"], args=("--fork",), label="pristine process per call"),
                  [(Source(exes["plain"], args=("--threads", "1", str(40000 if q else 1000000)), label="one history, many repetitions", timeout=700), 0)], by_index=True), lives)
    mem = gen.uniq(rng.sample(base, min(len(base), 2500 if q else 20000)) + failing)
    mem += ["life %s %s" % v for cls in pools for v in pools[cls]]
    mem += ["rlife %s %s" % (k, th(x)) for k in ("int", "enum", "float", "bool", "char", "null") for x in ("12", "-1.5e3", "true", "null", "", "x", "9" * 400)]
    c.add(Source(exes["count"], args=("--mem",), label="allocation counting"), chunked(mem, 60))
    c.add(Source(exes["plain"], label="process-wide state"), [s + ["env"] for s in chunked([o for o in base if o not in shared], 90)])
    c.notes["histories"] = "every call of a session in a process of its own, then all of them in one process in 7 orders"


# ------------------------------------------------------------------ extractor objects

READER_TYPES = {"int": list(gen.ITYPES), "enum": list(gen.ETYPES), "float": ["f32", "f64", "f80"], "bool": ["bool"], "char": ["char", "u8"], "null": ["null"]}


@prop("C23")
def c23(c):
    rng = rng_of(c)
    q = c.quick
    ints = [s.decode("latin-1") for s in gen.int_texts(rng, 40 if q else 1500)]
    flts = gen.float_texts(rng, "f64", 150 if q else 3000) + gen.float_texts(rng, "f32", 60 if q else 2000) + part(rng, gen.float_limits("f32"), 3) + part(rng, gen.float_limits("f64"), 3) + [w for w in gen.FWORDS if all(ord(x) < 256 for x in w)]
    words = [w.decode("latin-1") for w in gen.word_texts(rng, n=100)]
    extra = hints.tree().numerals(rng)
    pool = {"int": ints, "enum": ints, "float": flts, "bool": ["true", "false"], "null": ["null"], "char": ["A", "\0", "\xff", "65", "\"q", "-1", "\0x"]}
    sessions = []

    def gets(d, cls, k=None):
        ts = READER_TYPES[cls]
        ts = rng.sample(ts, min(len(ts), k or len(ts)))
        return ["rget %d %s" % (d, t) for t in ts]
    # one object, every type of its class, twice, in two orders
    for cls, texts in (("int", ints), ("enum", ints), ("float", flts)):
        for some in chunked(rng.sample(texts, min(len(texts), (420 if cls != "enum" else 150) if q else 6000)) + (part(rng, extra, 2 if cls == "int" else 5) if q else extra), 8):
            s = []
            for n, x in enumerate(some):
                d = n % 3 + 1
                s += ["rnew %d %s %s" % (d, cls, th(x))] + gets(d, cls) + gets(d, cls, 2)
                if n > 2:
                    s += gets((n + 1) % 3 + 1, cls, 3)
            sessions.append(s)
    for cls in ("bool", "null", "char"):
        for some in chunked(rng.sample(words + pool[cls] * 4, min(len(words), 200 if q else 4000)), 10):
            s, alive = ["rnew 1 %s %s" % (cls, th(pool[cls][0]))], True
            for x in some:      # a failed construction leaves the earlier object as it was
                s += ["rnew 1 %s %s" % (cls, th(x))] + gets(1, cls)
            sessions.append(s)
    # histories of several objects
    h, w = heap_histories(c)
    names = {"copy": ["rcopy"], "move": ["rcopy", "drop"], "assign": ["rassign"], "massign": ["rassign", "drop"], "swap": ["rswap"], "self": ["rself"], "reloc": [], "byval": []}
    for n, hist in enumerate(part(rng, h, 3 if q else 1) + w[: 30 if q else len(w)]):
        cls = ("int", "float", "enum", "int", "float", "bool", "char")[n % 7]
        live, s = set(), []
        key = {}
        for o in hist:
            d, f = o["d"], o["s"]
            if o["o"] == "new":
                x = key.setdefault(o["k"], rng.choice(pool[cls]))
                s.append("rnew %d %s %s" % (d, cls, th(x)))
                live.add(d)
            elif o["o"] == "destroy":
                s.append("rdrop %d" % d)
                live.discard(d)
            else:
                for a in names[o["o"]]:
                    if a == "drop":
                        s.append("rdrop %d" % f)
                        live.discard(f)
                    else:
                        s.append("%s %d %d" % (a, d, f))
                        live.add(d)
            for d in live:
                s += gets(d, cls, 2)
        sessions.append(s)
    c.add(plain(), sessions)
    c.models += [models.heap]


@prop("C24")
def c24(c):
    rng = rng_of(c)
    exe = build([PLAIN])["plain"]
    k = 1 if c.quick else 20
    us = gen.f64_values(rng, 2500 * k, 1) + gen.f64_specials(rng) + gen.f64_hard(rng, k)
    ops = ["fmt f64 %x" % u for u in us] + ["fmt f32 %x" % u for u in gen.f32_values(rng, 300 * k) + gen.f32_specials(rng)]
    ops += hints.floats("fmt", rng) + [o for o in hints.mixed(rng) if o.split()[0] in ("json", "esc") or o.split()[0] in ("fmt", "ext") and o.split()[1] in gen.NTYPES]
    ops += part(rng, gen.int_fmt(rng, 10 * k, gen.NTYPES), 4) + ["ext %s %s" % (rng.choice(list(gen.NTYPES)), th(x)) for x in part(rng, gen.int_texts(rng, 10 * k), 4)]
    ops += ["%s %s" % (rng.choice(("json", "esc")), th(x)) for x in part(rng, gen.byte_texts(rng, 50 * k), 3)]
    rng.shuffle(ops)
    ref = Source(exe, label="to nearest")
    c.add(Compare(ref, [(Source(exe, args=("--round", str(r)), label=n), 0) for r, n in ((1, "upward"), (2, "downward"), (3, "toward zero"))]), chunked(gen.uniq(ops), 80))


# ------------------------------------------------------------------ extended precision

@prop("C25")
def c25(c):
    rng = rng_of(c)
    q = c.quick
    exes = build([Variant("diy", driver="diydriver.cpp", flags=["-O1", "-g", "-fsanitize=undefined", "-fno-sanitize-recover=all"]),
                  Variant("diyp", driver="diydriver.cpp", flags=["-O2"], wrap={"diyfp.cpp": "port_diyfp.cpp"}),
                  Variant("diyc", cxx="clang++", driver="diydriver.cpp", flags=["-O2"])])
    us = gen.uniq(gen.f64_structured() + gen.f64_random(rng, 1500 if q else 40000) + [u & ((1 << 63) - 1) for u in hints.tree().doubles(rng)])
    ops = ["split %x" % u for u in us] + ["split %x" % (u | 1 << 63) for u in part(rng, us, 9)] + ["bounds %x" % u for u in us if u]
    for k in range(53):
        for f in (1 << k, (1 << (k + 1)) - 1, (1 << k) | rng.getrandbits(k) if k else 1):
            ops += ["norm %x %d" % (f, rng.randint(-1200, 1200)), "normb %x %d" % (f, rng.randint(-1200, 1200))]
    ops += ["normb %x %d" % ((1 << 53) | rng.getrandbits(53), rng.randint(-1100, 1000)) for _ in range(20)]
    M = (1 << 64) - 1
    for x in hints.tree().ints:
        if 0 < x < 1 << 53:
            ops.append("norm %x %d" % (x, rng.randint(-1200, 1200)))
        if 0 < x < 1 << 54:
            ops.append("normb %x %d" % (x, rng.randint(-1200, 1200)))
        y = rng.getrandbits(64)
        ops += ["mul %x %d %x %d" % (x, rng.randint(-1200, 1100), y, rng.randint(-1200, 1100)), "mul %x %d %x %d" % (y, -x if x < 1200 else 0, x, x if x < 1100 else 0), "sub %x %d %x %d" % (max(x, y), 7, min(x, y), 7)]
        ops.append("mul %x %d %x %d" % (1 << 63, rng.randint(-1200, 1100), (x << 1) & M, rng.randint(-1200, 1100)))
        if x <= 1100:
            ops += ["norm %x %d" % (rng.getrandbits(52) | 1, d) for d in (x, -x)] + ["normb %x %d" % (rng.getrandbits(53) | 1, d) for d in (x, -x)]
    for x in hints.tree().magnitudes(64, rng):
        ops += ["mul %x %d %x %d" % (1 << 63, rng.randint(-1200, 1100), (x << 1) & M, 3), "mul %x %d %x %d" % ((x << 1) & M | 1, 5, 1 << 63, 3)]
    for a, b in hints.tree().pairs:
        if a <= 1200 and b < 64:
            for e in (a, -a):
                for f, o in (((1 << 64) - 1 >> b) & rng.getrandbits(64) | (1 << 63 >> b), ("norm", "normb")), ((1 << b) | rng.getrandbits(b) if b else 1, ("norm", "normb")):
                    ops += ["%s %x %d" % (x, f, e) for x in o if 0 < f < 1 << (53 if x == "norm" else 54)]
    edge = [0, 1, 2, 0xffffffff, 0x100000000, 0x80000000, 0x7fffffff, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, M, M - 1, 0xffffffff00000000, 0xffffffff00000001, 0x00000001ffffffff, 0xfa8fd5a0081c0288]
    ops += ["mul %x %d %x %d" % (a, rng.randint(-1200, 1100), b, rng.randint(-1200, 1100)) for a in edge for b in edge]
    for _ in range(2500 if q else 60000):
        a = rng.getrandbits(64) if rng.random() < .5 else (1 << 63) | rng.getrandbits(63)
        b = rng.getrandbits(64) if rng.random() < .5 else (1 << 63) | rng.getrandbits(63)
        if rng.random() < .6 and a:      # aim the low half of the product at the rounding boundary
            a |= 1
            t = ((1 << 63) + rng.choice((0, -1, 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 30, -(1 << 30), rng.randint(-(1 << 33), 1 << 33)))) & M
            b = t * pow(a, -1, 1 << 64) & M
        ops.append("mul %x %d %x %d" % (a, rng.randint(-1200, 1100), b, rng.randint(-1200, 1100)))
    for _ in range(200):
        a, b, e = rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), rng.randint(-1100, 1000)
        a, b = max(a, b), min(a, b)
        ops.append("sub %x %d %x %d" % (a, e, b, e))
    ops += ["power %d" % x for x in range(-1137, 961)]
    rng.shuffle(ops)
    s = chunked(ops, 60)
    c.add(Source(exes["diy"], label="gcc, ubsan"), s, "DiyTrace")
    c.add(Source(exes["diyp"], label="portable paths"), [[o for o in x if o.split()[0] in ("mul", "norm", "normb", "bounds")] for x in s], "DiyTrace")
    c.add(Source(exes["diyc"], label="clang"), part(rng, s, 4 if q else 1), "DiyTrace")
    c.models += [models.grisu(c.quick)]
    c.notes["cached_powers"] = "every exponent a finite double can have (-1137..960)"


# ------------------------------------------------------------------ JSON values

@prop("C26")
def c26(c):
    rng = rng_of(c)
    k = 1 if c.quick else 20
    ops = ["views %s %x" % (t, v) for t in ("i8", "u8", "char") for v in range(256)] + ["views uchar %x" % v for v in range(256)]
    ops += part(rng, gen.int_fmt(rng, 20 * k, dict(gen.ITYPES, **gen.ETYPES), "views"), 2 if c.quick else 1)
    ops += ["views bool 0", "views bool 1", "views null 0", "views nulld 0", "views ebool 0", "views ebool 1"]
    ops += ["views f64 %x" % u for u in gen.f64_specials(rng) + part(rng, gen.f64_full_grid(rng), 4 if c.quick else 1) + part(rng, gen.f64_values(rng, 2000 * k, 1), 2 if c.quick else 1)]
    ops += ["views f32 %x" % u for u in gen.f32_specials(rng) + part(rng, gen.f32_values(rng, 100 * k), 3 if c.quick else 1)]
    ops += ["views f80 %x" % u for u in part(rng, gen.f80_values(rng, 50 * k), 3 if c.quick else 1)]
    ops += part(rng, hints.values("views", rng, dict(gen.ITYPES, **gen.ETYPES)), 4 if c.quick else 1) + hints.floats("views", rng) + hints.narrow("views", rng)
    rng.shuffle(ops)
    c.add(plain(), chunked(gen.uniq(ops), 60))
    c.models += [models.layout, models.ints]


# ------------------------------------------------------------------ memory exhaustion, static initialisation, cost

COUNT = Variant("count", flags=["-O1"], link=["-pthread"], defs=["-DCOUNT_ALLOC", "-DOOM"])


@prop("C27")
def c27(c):
    rng = rng_of(c)
    exe = build([COUNT])["count"]
    k = 1 if c.quick else 12
    types = dict(gen.ITYPES, **gen.ETYPES)
    ops = []
    for t in types:
        vs = gen.int_values(t, rng, 3 * k)
        ops += ["fmt %s %s" % (t, v) for v in rng.sample(vs, min(len(vs), 8 * k))] + ["fmt %s %s" % (t, "8" + "0" * (types[t][0] // 4 - 1))]
        ops += ["ext %s %s" % (t, th(s)) for s in ("12", "-1", "", " " * 40 + "7", "1" * 30, "x" * 20)]
    ops += ["ext fpos " + th(s) for s in ("12", "-1", "0" * 40)]
    ops += ["fmt f64 %x" % u for u in rng.sample(gen.f64_random(rng, 100) + gen.f64_longest(rng, 2), 60 * k if c.quick else 100) + gen.f64_specials(rng)[:20]]
    ops += ["fmt f32 %x" % u for u in rng.sample(gen.f32_values(rng, 50), 15 * k)] + ["fmt f80 %x" % u for u in rng.sample(gen.f80_values(rng, 50), 15 * k)]
    ops += ["fmt bool 0", "fmt bool 1", "fmt null 0"] + ["fmt char %x" % v for v in range(0, 256, 3)]
    for t in ("f32", "f64", "f80"):
        ops += ["ext %s %s" % (t, th(s)) for s in rng.sample(gen.float_texts(rng, t, 100), 30 * k) + ["", "1.5", "9" * 2000, "0." + "3" * 900 + "e-200"]]
    for s in gen.SYNONYMS[:60 * k] + ["true", "false", "null", "", "x" * 200]:
        ops += ["ext %s %s" % (t, th(s)) for t in ("bool", "null", "char")]
    for n in list(range(0, 70)) + [100, 127, 128, 255, 256, 1000, 4000]:
        for unit in (b'"', b"a", b"\n", b"\\x", bytes([1]), b" a\"b\0c", b"\xe2\x82\xac"):
            s = (unit * (n // len(unit) + 1))[:n]
            ops += ["%s %s" % (o, th(s)) for o in (("json", "esc", "pass") if n < 40 or n > 90 else (rng.choice(("json", "esc")),))]
    ops += part(rng, [o for o in hints.mixed(rng) if o[:2] != "rt"], 2 if c.quick else 1)
    ops += ["%s %s" % (o, th(x)) for x in hints.tree().texts(rng, 4000) if len(x) > 20 for o in ("json", "esc")]
    ops = gen.uniq(ops)
    rng.shuffle(ops)
    c.add(Source(exe, args=("--oom",), label="each allocation fails in turn"), chunked(ops, 40))
    c.notes["faults"] = "for each call, every single allocation it makes fails, alone and together with all later ones"


@prop("C28")
def c28(c):
    rng = rng_of(c)
    L = ["-pthread"]
    vs = [Variant("o0", flags=["-O0"], link=L)] + ([] if c.quick else [Variant("o2", flags=["-O2"], link=L), Variant("clang", cxx="clang++", flags=["-O0"], link=L)])
    exes = build(vs)
    k = 1 if c.quick else 10
    ops = gen.uniq(part(rng, mixed_ops(rng, k), 2 if c.quick else 1) + ["fmt f64 %x" % u for u in gen.f64_structured()[:: 1 if not c.quick else 7]] + ["fmt %s %s" % (t, v) for t in ("i32", "u64", "i64") for v in gen.int_values(t, rng, 10)])
    rng.shuffle(ops)
    for v in vs:
        exe = exes[v.name]
        c.add(Compare(Source(exe, label=v.name + ", from main"), [(Source(exe, args=("--when", w), label="%s, %s" % (v.name, w)), 0) for w in ("early", "twice", "late")]), chunked(ops, 80))
    c.notes["moments"] = "before the initialisers of every other translation unit; after the destructors of all static objects"


@prop("C29")
def c29(c):
    rng = rng_of(c)
    exe = build([Variant("count2", flags=["-O2"], link=["-pthread"], defs=["-DCOUNT_ALLOC"])])["count2"]
    U = [b'"', b"a", b"\n", b"\\", b"\x01", b"\xe2\x82\xac", b" ", b"a\"b\\c\n d", b"\0", bytes(range(256)), b"\x7f", b"/"]
    ops = ["cost %s %s:%s:%s" % (o, th(p), th(u), th(q)) for o in ("json", "esc", "pass") for u in U for p, q in ((b"", b""), (b'"\n', b'"\\'))]
    for u in (b" ", b"\t", b"0", b"9", b"123", b"x", b"\0", b"-", b"\xff"):
        for p in (b"", b"-", b" +", b"1", b"1.", b"0.", b"1e", b"-0.0"):
            for q in (b"", b"1", b"e5"):
                ops.append("cost %s %s:%s:%s" % (rng.choice(("int", "float")) if c.quick else "int", th(p), th(u), th(q)))
                if not c.quick:
                    ops.append("cost float %s:%s:%s" % (th(p), th(u), th(q)))
    ops += ["cost %s %s:%s:-" % (o, th(p), th(u)) for o in ("bool", "null", "char") for p in (b"", b"true", b"null", b" ") for u in (b" ", b"t", b"n", b"\0", b"true")]
    c.add(Source(exe, args=("--cost",), label="processor time and memory", shards=4, timeout=600), chunked(gen.uniq(ops), 10))
    c.assumptions.append("processor time is measured, with a margin of a factor 3 and half a second")
