"""Input hints taken from the tree under test: the constants its code mentions.

A change that misbehaves only for one magic value, length or word is out of reach of sampling, but the value is
written in the code. The numbers, characters and words found in the sources (and the immediates of the compiled
objects, where constant expressions are folded) are only used as further inputs: what is judged is still what
the code does with them, by the specification."""
import functools, glob, os, random, re, subprocess, struct
from concurrent.futures import ThreadPoolExecutor
from . import core, gen

TOKEN = re.compile(r'''R"\((?:.|\n)*?\)"|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])+'|(?:\d[\d']*\.?[\d']*|\.\d[\d']*)(?:[eE][+-]?\d+)?[a-zA-Z0-9_.']*|[;{}]|[A-Za-z_]\w*|\S''')
ESC = {"n": 10, "t": 9, "r": 13, "b": 8, "f": 12, "v": 11, "a": 7, "0": 0, "\\": 92, "'": 39, '"': 34}


def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode("utf-8", "surrogateescape")
            i += 1
            continue
        m = re.match(r"\\x([0-9a-fA-F]+)|\\([0-7]{1,3})|\\u([0-9a-fA-F]{4})", s[i:])
        if m:
            if m.group(3):
                out += chr(int(m.group(3), 16)).encode("utf-8", "replace")
            else:
                out.append((int(m.group(1), 16) if m.group(1) else int(m.group(2), 8)) & 255)
            i += m.end()
        else:
            out.append(ESC.get(s[i + 1:i + 2], ord(s[i + 1:i + 2] or "x") & 255))
            i += 2
    return bytes(out)


def number(t):
    """A numeric literal -> ('i', int), ('f', float) or None."""
    t = t.replace("'", "")
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)[uUlLzZ]*", t)
    if m:
        s = m.group(1)
        if s[:2] in ("0x", "0X"):
            return "i", int(s, 16)
        if s[:2] in ("0b", "0B"):
            return "i", int(s, 2)
        return "i", int(s, 8) if len(s) > 1 and s[0] == "0" and re.fullmatch("[0-7]+", s) else int(s)
    m = re.fullmatch(r"((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[fFlL]?", t)
    if m:
        try:
            return "f", float(m.group(1))
        except ValueError:
            return None
    m = re.fullmatch(r"(0[xX][0-9a-fA-F.]+[pP][+-]?\d+)[fFlL]?", t)
    if m:
        try:
            return "f", float.fromhex(m.group(1))
        except (ValueError, OverflowError):
            return None
    return None


def from_text(path):
    """-> list of statements, each a list of ('i', n) / ('f', x) / ('s', bytes)"""
    with open(path, encoding="utf-8", errors="surrogateescape") as f:
        src = f.read()
    src = re.sub(r'("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\')|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or " ", src, flags=re.S)
    out, cur = [], []
    for m in TOKEN.finditer(src):
        t = m.group(0)
        if t in ";{}":
            if cur:
                out.append(cur)
            cur = []
        elif t[0] == '"':
            cur.append(("s", unescape(t[1:-1])))
        elif t[0] == "'":
            b = unescape(t[1:-1])
            cur.append(("i", b[0] if b else 0))
        elif t[0].isdigit() or t[0] == "." and len(t) > 1:
            n = number(t)
            if n:
                cur.append(n)
    return out + [cur]


def from_object(path):
    """Immediates and data of the compiled translation unit (constant expressions are folded here)."""
    r = subprocess.run(["g++"] + core.BASE_FLAGS + ["-O1", "-I", core.REPO + "/include", "-S", path, "-o", "-"], capture_output=True, text=True, errors="replace")
    out = set()
    for line in r.stdout.splitlines():
        m = re.match(r"\s+(cmp|test|sub|and|add|lea|mov)\w*\s+(.*)", line)
        if m:
            if m.group(1) == "lea":
                continue
            out.update(int(x) for x in re.findall(r"\$(-?\d+)", m.group(2)))
    return {x & ((1 << 64) - 1) if x < 0 else x for x in out} | {-x for x in out if x < 0}


class Hints:
    def __init__(self):
        files = sorted(glob.glob(core.REPO + "/include/**/*.hpp", recursive=True)) + core.sources()
        ints, floats, words, pairs, shaped = [], [], [], [], []
        for p in files:
            for st in from_text(p):
                nums = [v for k, v in st if k == "i"]
                reals = [v for k, v in st if k == "f"]
                words += [v for k, v in st if k == "s" and 0 < len(v) <= 64 and not v.endswith(b"pp")]
                if len(reals) <= 12:                         # more than that is a table
                    floats += reals
                if len(nums) <= 12:
                    ints += nums
                    shaped.append(nums)
                    pairs += [(a, b) for i, a in enumerate(nums) for b in nums[max(0, i - 2):i + 3] if a != b and (a > 2 or b > 2)]
        with ThreadPoolExecutor(core.JOBS) as ex:
            for s in ex.map(from_object, core.sources()):
                ints += sorted(s)
        M = (1 << 64) - 1
        for w in words:                                      # words that are numbers
            t = w.decode("latin-1").strip()
            if re.fullmatch(r"[+-]?\d{1,20}", t):
                ints.append(abs(int(t)))
            elif re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d{1,3})?", t):
                floats.append(abs(float(t)))
        self.ints = gen.uniq([x & M for x in ints])
        self.floats = gen.uniq([x for x in floats if 0 < x < float("inf")])
        self.words = gen.uniq(words)
        self.shaped = [n for n in gen.uniq([tuple(n) for n in shaped]) if len(n) > 1 and all(x < 6000 for x in n)]
        self.pairs = gen.uniq([(a & M, b & M) for a, b in pairs])

    @staticmethod
    def places(ns):
        """Readings of the constants of a statement as (position, byte) pairs."""
        out = []
        for off in (0, 1, 2):
            at = {i: v for i, v in zip(ns[off::2], ns[off + 1::2]) if i < 6000 and v < 256}
            if at:
                out.append(at)
        return out

    def magnitudes(self, bits, rng):
        """The constants and their neighbours; values that have a constant as a residue, as a field, or as decimal digits."""
        out = []
        for x in self.ints:
            out += [x, x + 1, x - 1, (1 << bits) - x]
        for a, b in self.pairs:
            if a > 1:                                        # x % a == b, x / a == b
                if b < a and a >> bits == 0:
                    k = max(1, (1 << bits) // a)
                    out += [b + a * rng.randrange(k), b + a * rng.randrange(min(k, 1000))]
                out.append(b * a + rng.randrange(a))
                if a.bit_length() + b.bit_length() <= 64 and a < 1 << 64:
                    out.append(b * a)
            if a < bits:                                     # x >> a == b, (x >> a) & mask == b
                out += [(b << a) | rng.getrandbits(a) if a else b]
            m = a & ((1 << bits) - 1)                        # (x & a) == b
            if b & ~m == 0:
                out.append(b | (rng.getrandbits(bits) & ~m))
        for ns in self.shaped:                               # digits at certain places
            for at in self.places(ns):
                at = {i: v for i, v in at.items() if i < 20 and 48 <= v <= 57}
                for size in gen.uniq([n for n in ns if n <= 20] + [rng.randint(1, 20)]) if at else ():
                    if size > max(at):
                        x = [rng.choice("123456789")] + [rng.choice("0123456789") for _ in range(size - 1)]
                        for i, v in at.items():
                            x[i] = chr(v)
                        out.append(int("".join(x)))
        return [v for v in gen.uniq(out) if 0 <= v < 1 << bits]

    def doubles(self, rng):
        """Patterns of doubles: the constants as bit patterns, significands, exponents, values and decimals."""
        out = []
        for x in self.ints:
            out += [x, x ^ 1]
            if x < 1 << 52:
                out.append((rng.randrange(1, 2047) << 52) | x)
            if 0 < x < 1 << 11:
                out += [(x << 52) | rng.getrandbits(52), (((1023 + x) & 2047) << 52) | rng.getrandbits(52), (((1023 - x) & 2047) << 52) | rng.getrandbits(52)]
            out += [gen.f64(float(x)), gen.f64(x + .5), gen.f64(1.0 / x if x else .25)]
            if x < 330:
                for e in (x, -x):
                    try:
                        out.append(gen.f64(float("%d.%de%d" % (rng.randint(1, 9), rng.randrange(10 ** rng.randint(1, 16)), e))))
                    except OverflowError:
                        pass
            out.append(gen.f64(float("%de%d" % (x, rng.randint(-30, 20)))))
        for x in self.floats:
            u = gen.f64(x)
            out += [u, u + 1, u - 1]
        for a, b in self.pairs:
            if a and b:
                out += [gen.f64(a / b), gen.f64(float("%d.%d" % (a, b))), gen.f64(float("%de%d" % (a, b if b < 300 else b % 300)))]
        return [u for u in gen.uniq(out) if 0 < u & ~(1 << 63) < 0x7ff << 52]

    def texts(self, rng, longest=6000):
        """Byte strings: the words, and strings whose length is a constant, plain and with something to escape in them."""
        out = []
        for w in self.words:
            out += [w, w + w, b"x" + w, w + b"x", w[:-1], w + b"\0", w.swapcase()]
        for n in gen.uniq([x + d for x in self.ints for d in (-1, 0, 1, 2)]):
            if 0 < n <= longest:
                out.append(bytes(rng.choice(b'ab"\\\n\x01 \x80') for _ in range(n)) if rng.random() < .6 else b"a" * (n - 1) + rng.choice((b'"', b"z", b"\\", b"\0")))
        for a, b in self.pairs:
            if a < 256 and b < 256:
                out += [bytes([a, b]), bytes([a]) * 3 + bytes([b]), b"x" + bytes([a]) + b"y" + bytes([b])]
        for ns in self.shaped:                               # c == a || ..., s[i] == c && s[j] == d
            if max(ns) < 256:
                out.append(bytes(ns))
            for at in self.places(ns):
                for size in {max(at) + rng.randint(1, 4), max(ns)} | set(ns[:2]):
                    if max(at) < size <= longest:
                        x = bytearray(rng.choice(b'abcXYZ019"\\') for _ in range(size))
                        for i, v in at.items():
                            x[i] = v
                        out.append(bytes(x))
        return gen.uniq(out)

    def numerals(self, rng):
        """Texts of numbers: the constants as numerals, as lengths of a numeral, with signs and fractions."""
        out = [w.decode("latin-1") for w in self.texts(rng, 40)]
        for x in self.ints:
            s = str(x)
            out += [s, "-" + s, " +" + s + "z", s + "." + s]
        for n in self.ints:
            if 1 < n <= 2000:
                out += [rng.choice(("", "-", "+")) + "".join(rng.choice("0123456789") for _ in range(n)), " " * n + "42", "0" * n + "7"]
                for k in (n - 1, n, n + 1):                  # that many characters in all
                    out += [x[:k] for x in ("0" * (k - 2) + "73", " " * (k - 2) + "42", "-12" + "x" * k, "1." + "5" * k)]
        for x in self.floats:
            out += [repr(x), "-" + repr(x)]
        for a, b in self.pairs:
            out += ["%de%d" % (a, min(b, 9999)), "%d.%de-%d" % (a, b, b % 320)]
        return gen.uniq(out)


@functools.lru_cache(None)
def tree():
    return Hints()


def values(op, rng, types=None):
    """Formatting operations on integers of all types."""
    out = []
    h = tree()
    for t, (bits, signed) in (types or gen.ITYPES).items():
        if bits > 8:
            for m in h.magnitudes(bits, rng):
                out.append("%s %s %s" % (op, t, gen.hexof(m, bits)))
                if signed and 0 < m <= 1 << (bits - 1):
                    out.append("%s %s %s" % (op, t, gen.hexof(-m, bits)))
    return gen.uniq(out)


def floats(op, rng):
    us = tree().doubles(rng)
    return ["%s f64 %x" % (op, u ^ (1 << 63) if rng.random() < .3 else u) for u in us]


def mixed(rng):
    """Every kind of call, each hint in one of them."""
    h = tree()
    out = []
    wide = [t for t in gen.NTYPES if gen.NTYPES[t][0] == 64] + ["i32", "u32", "eplain"]
    for m in h.magnitudes(64, rng):
        t = rng.choice(wide)
        out.append("%s %s %s" % (rng.choice(("fmt", "rt")), t, gen.hexof(rng.choice((m, m, -m)), gen.NTYPES[t][0])))
    for m in h.magnitudes(32, rng):
        t = rng.choice(("i32", "u32", "ei32", "eu32"))
        out.append("fmt %s %s" % (t, gen.hexof(rng.choice((m, -m)), 32)))
    out += floats("fmt", rng)
    out += ["%s %s" % (rng.choice(("json", "esc", "json", "esc", "pass", "ext bool", "ext null", "ext char")[: 8 if s else 5]), gen.th(s)) for s in h.texts(rng, 4200)]
    ts = list(gen.NTYPES) + ["f64", "f32", "f64"]
    out += ["ext %s %s" % (rng.choice(ts), gen.th(s)) for s in h.numerals(rng)]
    return gen.uniq(out)


def narrow(op, rng):
    """The same for floats and long doubles."""
    out = []
    for u in tree().doubles(rng):
        x = abs(gen.unf64(u & ((1 << 63) - 1)))
        if x < 3e38:
            out.append("%s f32 %x" % (op, struct.unpack("<I", struct.pack("<f", x))[0] | (rng.getrandbits(1) << 31)))
    for x in tree().floats + [float(n) for n in tree().ints]:
        if x:
            u = gen.f64(x)
            be, f = u >> 52, u & ((1 << 52) - 1)
            if be:
                out += ["%s f80 %x" % (op, gen.f80(s, be - 1023 + 16383, 1 << 63 | f << 11)) for s in (0, 1)]
    for n in tree().ints:
        if n < 1 << 31:
            out.append("%s f32 %x" % (op, n))
        if 1 << 63 <= n:
            out.append("%s f80 %x" % (op, gen.f80(rng.getrandbits(1), 16383 + rng.randint(-60, 60), n)))
        elif n:
            out.append("%s f80 %x" % (op, gen.f80(rng.getrandbits(1), 16382 + n.bit_length(), n << (64 - n.bit_length()))))
        if 0 < n < 0x7fff:
            out.append("%s f80 %x" % (op, gen.f80(rng.getrandbits(1), n, 1 << 63 | rng.getrandbits(63))))
    return gen.uniq(out)
