"""Inputs for the conformance drivers: seeded bulk generators.
(Behaviour-shaped inputs - histories, lexer paths - are generated by TLC from spec/Gen*.tla.)"""
import random, struct
from fractions import Fraction
import sys
sys.set_int_max_str_digits(0)

ITYPES = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0),
          "il": (64, 1), "ul": (64, 0), "i64": (64, 1), "u64": (64, 0)}
ETYPES = {"ei8": (8, 1), "eu8": (8, 0), "ei16": (16, 1), "eu16": (16, 0), "ei32": (32, 1), "eu32": (32, 0),
          "ei64": (64, 1), "eu64": (64, 0), "eplain": (32, 1), "echar": (8, 1), "elong": (64, 1),
          "ewchar": (32, 1), "ec16": (16, 0), "ec32": (32, 0), "eulong": (64, 0), "eflag": (16, 0)}
NTYPES = dict(ITYPES, **ETYPES, fpos=(64, 1))


def hexof(v, bits):
    return "%x" % (v & ((1 << bits) - 1))


def th(b):
    """text (bytes) -> op argument"""
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


def chunked(ops, n):
    return [ops[i:i + n] for i in range(0, len(ops), n)]


def uniq(xs):
    return list(dict.fromkeys(xs))


# ------------------------------------------------------------------ integers

CHUNK = [0, 1, 7, 9, 10, 19, 90, 99, 100, 101, 110, 999, 1000, 1001, 1010, 9990, 9999]


def magnitudes(bits, rng, nrand):
    top = 1 << bits
    out = [0, 1, 2]
    for k in range(0, 21):
        out += [10 ** k + d for d in (-2, -1, 0, 1, 2, 9, 10, 11)] + [d * 10 ** k for d in range(1, 10)] + [int("9" * (k + 1)) - 10 ** (k // 2)]
        out += [int(str(d) * (k + 1)) for d in range(1, 10)]
    for k in range(0, bits + 1):
        out += [(1 << k) + d for d in (-2, -1, 0, 1, 2)]
    # products of 4-digit chunks, the unit in which digits are produced
    for _ in range(nrand):
        n = rng.randint(1, 5)
        v = 0
        for _ in range(n):
            v = v * 10000 + rng.choice(CHUNK)
        out.append(v)
    # every digit count, random digits; sparse digits (zeros inside)
    for _ in range(nrand):
        n = rng.randint(1, 20)
        out.append(rng.randrange(10 ** (n - 1), 10 ** n))
        out.append(int("".join(rng.choice("0000009123456785") for _ in range(n)) or "0"))
    for _ in range(nrand // 2):
        out.append(rng.getrandbits(rng.randint(1, bits)))
    return uniq([v for v in out if 0 <= v < top])


def int_values(t, rng, nrand):
    bits, signed = NTYPES[t]
    if bits == 8:
        return [hexof(v, 8) for v in range(256)]
    vs = magnitudes(bits, rng, nrand)
    out = []
    for m in vs:
        if signed:
            if m < 1 << (bits - 1):
                out.append(m)
            if 0 < m <= 1 << (bits - 1):
                out.append(-m)
        else:
            out.append(m)
    return [hexof(v, bits) for v in out]


def int_fmt(rng, nrand, types=ITYPES, op="fmt"):
    ops = []
    for t in types:
        ops += ["%s %s %s" % (op, t, h) for h in int_values(t, rng, nrand)]
    return ops


def int_chunks(rng):
    """Every four-digit group at every position of 32- and 64-bit numbers."""
    def perm(n):
        x = list(range(n))
        rng.shuffle(x)
        return x
    ops = []
    for t, groups, top in (("u32", 1, 0), ("i32", 2, 0), ("u32", 2, 43), ("i64", 3, 0), ("u64", 4, 0), ("u64", 4, 1845), ("i64", 4, 923)):
        ps = [perm(10000) for _ in range(groups)]
        for i in range(10000):
            v = sum(ps[j][i] * 10000 ** j for j in range(groups)) + (rng.randrange(1, top) if top else 0) * 10000 ** groups
            bits, signed = ITYPES[t]
            if v < 1 << (bits - signed):
                ops.append("fmt %s %s" % (t, hexof(-v if signed and i % 2 else v, bits)))
    return ops


def int_texts(rng, nrand):
    """Numerals around every boundary, with signs, zeros, white space and junk around them."""
    nums = []
    for k in (7, 8, 15, 16, 31, 32, 63, 64):
        nums += [(1 << k) + d for d in (-2, -1, 0, 1, 2)]
    for k in range(0, 23):
        nums += [10 ** k - 1, 10 ** k, 10 ** k + 1]
    nums += [3 * (1 << 64), 10 ** 30, (1 << 65) - 1, (1 << 65), (1 << 128) - 1, 18446744073709551615 * 10, 99999999999999999999, 18446744073709551620]
    for _ in range(nrand):
        nums.append(rng.getrandbits(rng.randint(1, 66)))
        nums.append(rng.randrange(10 ** rng.randint(0, 22)))
    out = []
    pre = ["", "+", "-", " ", "\t\n\v\f\r ", " -", "\n+", "00", "-000", "0" * 40, "+-", "- ", "--", "++", "0x", "x", "\0", "\xa0", "-0", "."]
    suf = ["", " ", "a", ".5", "e3", "-1", "+", "\0", "\0001", " 1", ",000", "_", "\xff", "x1", "L", "'000"]
    for i, n in enumerate(uniq(nums)):
        s = str(n)
        out += [s, "-" + s, "+" + s]
        for _ in range(3):
            out.append(rng.choice(pre) + s + rng.choice(suf))
    for p in pre:
        for q in suf:
            out.append(p + q)
            out.append(p + "12" + q)
            out.append(p + "7" + q + "8")
    for k in (1, 9, 12, 15, 16, 17, 19):
        x = str(rng.randrange(10 ** (k - 1), 10 ** k))
        out += [p + x + "." + d * n for p in ("", "-") for d in "059" for n in (0, 1, 4, 25)] + [x + "e5", x + "E-3", x + ".5e1", "9" * k + ".9999999999999999"]
    out += run_texts()
    return uniq([o.encode("latin-1") for o in out])


def byte_contexts():
    """Every byte before, after, between and instead of the parts of a number."""
    out = []
    for v in range(256):
        c = chr(v)
        out += [c, c + "5", "-" + c + "5", "+" + c, "7" + c, "7" + c + "8", " " + c + "9", "1." + c + "5", "1" + c + "5e2", "1e" + c + "2", "1e-" + c + "3", "." + c + "4", "-." + c, "2e3" + c, "0" + c + "7", c + c + "6", c + "-3"]
    return out


def de_bruijn_chunks(rng, size=180):
    """A sequence of bytes in which every pair of bytes is adjacent somewhere, cut into overlapping pieces."""
    order = list(range(256))
    rng.shuffle(order)
    seq, k = [], 256
    # Eulerian circuit over bytes: greedy construction
    nxt = {v: rng.sample(range(k), k) for v in range(k)}
    stack, circuit = [order[0]], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            circuit.append(stack.pop())
    seq = bytes(reversed(circuit))
    return [seq[i:i + size + 1] for i in range(0, len(seq) - 1, size)]


def run_texts():
    """Runs of one character, short and long, alone and before or after a digit."""
    out = []
    for ch in " \t\n\v\f\r+-.0195aeEx\0_,'\x7f\x80\xa0\xff":
        for n in (1, 2, 3, 7, 8, 15, 16, 17, 18, 19, 20, 21, 40, 300):
            out += [ch * n, ch * n + "7", "7" + ch * n, "-" + ch * n]
    return out


# ------------------------------------------------------------------ floats

def f64(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def unf64(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


SIG52 = [0, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, 1 << 26, (1 << 26) - 1]


def f64_structured():
    """Every binary exponent with boundary significands."""
    out = []
    for be in range(0, 2047):
        for f in (0, 1, (1 << 52) - 1):
            out.append((be << 52) | f)
    for be in list(range(0, 60)) + list(range(2000, 2047)) + list(range(1023 - 60, 1023 + 90)):
        for f in SIG52:
            out.append((be << 52) | f)
    for k in range(52):          # every subnormal length
        out += [1 << k, (1 << k) | 1, (1 << (k + 1)) - 1]
    return out


def f64_decimal_grid(rng, reps):
    """Every (number of digits, decimal exponent) cell: n-digit decimals at 10^E."""
    out = []
    for n in range(1, 18):
        for E in range(-324, 309):
            interesting = -12 <= E <= 26
            if not interesting and (E + 3 * n) % 7:
                continue
            for _ in range(reps if interesting else 1):
                d = rng.randrange(10 ** (n - 1), 10 ** n)
                if d % 10 == 0:
                    d += rng.randint(1, 9)
                try:
                    x = float("%de%d" % (d, E - n))
                except OverflowError:
                    continue
                if 0 < x < float("inf"):
                    out.append(f64(x))
    return out


def f64_full_grid(rng):
    """One n-digit decimal at every decimal exponent, for every n."""
    out = []
    for n in range(1, 18):
        for E in range(-324, 309):
            d = rng.randrange(10 ** (n - 1), 10 ** n)
            x = float("%de%d" % (d if d % 10 else d + rng.randint(1, 9), E - n + 1))
            if 0 < x < float("inf"):
                out.append(f64(x))
    return out


def f64_powers_of_ten():
    out = []
    for k in range(-323, 309):
        u = f64(float("1e%d" % k))
        out += [u - 1, u, u + 1]
    return [u for u in out if u >= 0]


def f64_integers(rng, n):
    out = []
    for k in range(0, 64):
        for d in (-1, 0, 1):
            out.append(f64(float((1 << k) + d)))
    for k in range(1, 24):
        for d in range(1, 10):
            out.append(f64(float(d * 10 ** k)))
        out += [f64(float(10 ** k - 1)), f64(float(10 ** k + 1))]
    for _ in range(n):
        out.append(f64(float(rng.randrange(10 ** rng.randint(1, 22)))))
        out.append(f64(rng.randrange(10 ** rng.randint(1, 9)) / 10 ** rng.randint(1, 9)))
        out.append(f64(rng.randrange(10 ** rng.randint(1, 17)) / 2 ** rng.randint(0, 60)))
    return out


def f64_random(rng, n):
    out = []
    for i in range(n):
        be = i % 2047
        k = rng.random()
        f = rng.getrandbits(52)
        if k < 0.15:
            f &= -1 << rng.randint(0, 51)
        elif k < 0.25:
            f |= (1 << rng.randint(0, 51)) - 1
        out.append((be << 52) | (f & ((1 << 52) - 1)))
    return out


def f64_longest(rng, reps):
    """The longest layouts: 17 digits in every window of the decimal point, and with the longest exponents; negative."""
    out = []
    for E in list(range(-8, 24)) + [-307, -300, -100, -99, 99, 100, 300, 308]:
        n = 0
        while n < reps:
            u = f64(-float("%d.%016de%d" % (rng.randint(1, 9) if E < 308 else 1, rng.randrange(7 * 10 ** 15, 10 ** 16) if E < 308 else rng.randrange(7 * 10 ** 15), E - 1 if E < 99 else E)))
            if len(repr(unf64(u)).split("e")[0].replace(".", "").strip("-0")) == 17:
                out.append(u)
                n += 1
    return out


def first_in_range(a, m, l, r):
    """Least x >= 0 with l <= a*x mod m <= r (0 <= l <= r < m), or None."""
    if l == 0:
        return 0
    a %= m
    if 2 * a > m:
        a, l, r = m - a, m - r, m - l
    if a == 0:
        return None
    c = -(-l // a)
    if a * c <= r:
        return c
    # a*x = m*y + t with l <= t <= r: least y with (-m*y) mod a in [l mod a, r mod a]
    y = first_in_range(-m % a, a, l % a, r % a)      # [l, r] holds no multiple of a
    if y is None:
        return None
    return -(-(l + m * y) // a)


def f64_hard(rng, per, lo=9, hi=15):
    """Doubles with a short decimal just outside or just inside their rounding interval.
    For significand f and exponent e the upper boundary is (2f+1)*2^(e-1); find f for which that is within
    2^-lo .. 2^-hi of an ulp of a multiple of 10^k, where 10^k is of the size of an ulp or larger."""
    out = []
    for e in range(-1074, 972):
        for _ in range(per):
            from_ulp = rng.choice((0, 0, 1, 2))
            k = int((e * 30103) // 100000) + 1 + from_ulp         # 10^k >= 2^e, roughly
            # residue of (2f+1) * 2^(e-1) modulo 10^k, in units of 1/den
            num, den = 1, 1
            if e - 1 >= 0:
                num <<= e - 1
            else:
                den <<= 1 - e
            if k >= 0:
                den *= 10 ** k
            else:
                num *= 10 ** -k
            # boundary / 10^k = (2f+1) * num / den; one ulp = 2*num/den of the unit
            import math
            g = math.gcd(num, den)
            num, den = num // g, den // g
            if den == 1:
                continue
            g0 = (1 << 52) + rng.getrandbits(51) if e > -1074 else rng.getrandbits(51) + 1
            b = rng.randint(lo, hi)
            w = (2 * num) >> b                     # this far from the multiple, at most
            if w == 0:
                continue
            base = (2 * g0 + 1) * num % den
            side = rng.random() < 0.5
            l, r = (den - w, den - 1) if side else (0, w)
            l, r = (l - base) % den, (r - base) % den
            if l > r:
                x = 0
            else:
                x = first_in_range(2 * num % den, den, l, r)
            if x is None or g0 + x >= 1 << 53:
                continue
            f = g0 + x
            for d in (0, 1):                       # the boundary's lower and upper neighbour
                if f + d < 1 << 53:
                    be = e + 1074 + (1 if f + d >= 1 << 52 else 0)
                    out.append((be << 52) | ((f + d) & ((1 << 52) - 1)))
    return uniq([u for u in out if 0 < u < 0x7ff << 52])


def f64_values(rng, nrand, reps, sign=True):
    us = f64_structured() + f64_decimal_grid(rng, reps) + f64_powers_of_ten() + f64_integers(rng, nrand // 40 + 50) + f64_random(rng, nrand)
    us += [f64(x) for x in (5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 4.35, 0.1, 0.3, 1 / 3., 1e21, 1e22, 1e23,
                            123456789012345680000.0, 999999999999999900000.0, 9.5e-7, 1e-6, 1.0000000000000002e-6, 9.999999999999999e-7,
                            -1.2345678901234567e-5, 1.7976931348623157e-5, 4.9406564584124654e-300, 0.00012345678901234567, 8.3e26, 9007199254740993.0)]
    us += f64_longest(rng, reps)
    us = uniq([u for u in us if 0 < u < 0x7ff << 52])
    if sign:
        us = [u | (1 << 63) if rng.random() < 0.4 else u for u in us]
    return us


def f64_specials(rng, n=60):
    out = [0, 1 << 63, 0x7ff << 52, 0xfff << 52]
    for k in range(52):
        out += [(0x7ff << 52) | (1 << k), (0xfff << 52) | (1 << k), (0x7ff << 52) | ((1 << (k + 1)) - 1)]
    for _ in range(n):
        out.append((rng.choice((0x7ff, 0xfff)) << 52) | rng.randint(1, (1 << 52) - 1))
    return uniq(out)


def f32_values(rng, n):
    out = []
    for be in range(255):
        for f in (0, 1, (1 << 23) - 1, rng.getrandbits(23)):
            out.append((be << 23) | f)
    for k in range(23):
        out += [1 << k, (1 << (k + 1)) - 1]
    for _ in range(n):
        out.append((rng.randrange(255) << 23) | rng.getrandbits(23))
        x = float(rng.randrange(10 ** rng.randint(1, 9))) / 10 ** rng.randint(0, 12)
        out.append(struct.unpack("<I", struct.pack("<f", x))[0])
    out = uniq([u for u in out if 0 < u])
    return [u | (1 << 31) if rng.random() < 0.3 else u for u in out]


def f32_specials(rng):
    out = [0, 1 << 31, 0xff << 23, 0x1ff << 23]
    for k in range(23):
        out += [(0xff << 23) | (1 << k), (0x1ff << 23) | (1 << k)]
    return out


def f80(neg, be, m):
    return (neg << 79) | (be << 64) | m


def f80_values(rng, n):
    """Valid (normalised or subnormal) x87 patterns: double range and its edges, ties, beyond."""
    out = [f80(s, 0, 0) for s in (0, 1)] + [f80(s, 0x7fff, 1 << 63) for s in (0, 1)]
    out += [f80(s, 0x7fff, (3 << 62) | k) for s in (0, 1) for k in (0, 1, 12345)]
    J = 1 << 63
    tails = [0, 1, 1 << 10, (1 << 10) - 1, (1 << 10) + 1, (1 << 11) - 1, 3 << 10, (3 << 10) - 1, (3 << 10) + 1]
    for be in list(range(16383 - 1080, 16383 - 1015)) + list(range(16383 - 40, 16383 + 70, 3)) + list(range(16383 + 1015, 16383 + 1030)):
        for t in rng.sample(tails, 4) + [0]:
            out.append(f80(rng.getrandbits(1), be, J | (rng.getrandbits(52) << 11) | t if rng.random() < .7 else J | t))
        out.append(f80(0, be, (1 << 64) - 1))
        out.append(f80(1, be, (1 << 64) - (1 << 10)))
        out.append(f80(0, be, (1 << 64) - (1 << 10) - 1))
    for be in (1, 2, 100, 5000, 10000, 15000, 17600, 20000, 30000, 32766):
        out.append(f80(rng.getrandbits(1), be, J | rng.getrandbits(63)))
    for k in (0, 1, 20, 62):
        out.append(f80(0, 0, 1 << k))
    for _ in range(n):
        out.append(f80(rng.getrandbits(1), 16383 + rng.randint(-1090, 1040), J | rng.getrandbits(63)))
    return uniq(out)


# ------------------------------------------------------------------ decimal texts

def exact_dec(fr):
    """Exact decimal expansion of a dyadic fraction >= 0 as (digits, exponent)."""
    num, den = fr.numerator, fr.denominator
    k = den.bit_length() - 1
    d = num * 5 ** k
    q = -k
    if d == 0:
        return "0", 0
    s = str(d)
    t = s.rstrip("0")
    return t, q + len(s) - len(t)


def spell(rng, ds, q, style=None):
    """One of the spellings of ds * 10^q."""
    style = rng.randint(0, 5) if style is None else style
    n = len(ds)
    E = q + n
    if style == 0 or n > 400 and style < 3:
        return ds[0] + "." + (ds[1:] or "0") + "e" + str(E - 1)
    if style == 1:
        return ds + "e" + str(q)
    if style == 2 and -40 < E < 60:
        if E <= 0:
            return rng.choice(("0.", ".")) + "0" * -E + ds
        if E >= n:
            return ds + "0" * (E - n) + rng.choice(("", ".", ".0", ".000"))
        return ds[:E] + "." + ds[E:]
    if style == 3:
        k = rng.randint(0, n)
        return (ds[:k] or rng.choice(("", "0", "000"))) + "." + ds[k:] + rng.choice("eE") + rng.choice(("", "+") if q + n - k >= 0 else ("",)) + str(q + n - k)
    if style == 4:
        z = rng.randint(1, 30)
        return ds + "0" * z + "e" + str(q - z)
    return "0" * rng.randint(1, 5) + "." + "0" * rng.randint(0, 4) + ds + "E" + "%+05d" % 0 if False else ds + ".0e%+04d" % q


FMT = {"f32": (24, -149, 255), "f64": (53, -1074, 2047), "f80": (64, -16445, 32767)}


def fval(t, u):
    """exact value of a positive pattern"""
    p, emin, bm = FMT[t]
    if t == "f80":
        be, m = u >> 64, u & ((1 << 64) - 1)
    else:
        be, m = u >> (p - 1), u & ((1 << (p - 1)) - 1)
        if be:
            m |= 1 << (p - 1)
    e = emin + max(be, 1) - 1
    return Fraction(m) * (Fraction(2) ** e)


def fulp(t, u):
    p, emin, bm = FMT[t]
    be = u >> 64 if t == "f80" else u >> (p - 1)
    return Fraction(2) ** (emin + max(be, 1) - 1)


def perturb(rng, ds, q):
    """Variants of an exact decimal: itself, just above, just below, truncated."""
    n = len(ds)
    out = [(ds, q)]
    z = rng.choice((0, 1, 5, 20, 60))
    out.append((ds + "0" * z + "1", q - z - 1))
    d = int(ds)
    out.append((str(d * 10 ** (z + 1) - 1), q - z - 1))
    if n > 20:
        k = rng.randint(17, min(n - 1, 40))
        out.append((ds[:k], q + n - k))
        out.append((str(int(ds[:k]) + 1), q + n - k))
    return out


def float_texts(rng, t, n):
    """Texts near rounding boundaries of format t: midpoints, values, limits, random decimals."""
    out = []
    p, emin, bm = FMT[t]

    def rnd():
        if t == "f80":
            return f80(0, 16383 + rng.choice((rng.randint(-1000, 1000), rng.randint(-70, 70))), (1 << 63) | rng.getrandbits(63))
        be = rng.choice((0, 1, rng.randrange(bm), rng.randrange(bm), bm - 1, (bm >> 1) + rng.randint(-30, 60)))
        f = rng.choice((0, 1, (1 << (p - 1)) - 1, rng.getrandbits(p - 1), rng.getrandbits(p - 1), rng.getrandbits(p - 1)))
        return (be << (p - 1)) | f
    for _ in range(n):
        u = rnd()
        v, ulp = fval(t, u), fulp(t, u)
        if v == 0:
            v, ulp = fval(t, 1), fulp(t, 1)
        for x in rng.sample([v + ulp / 2, v - ulp / 2 if v > ulp else v, v, v + ulp / 4], 2):
            ds, q = exact_dec(x)
            for ds2, q2 in rng.sample(perturb(rng, ds, q), 2):
                out.append(spell(rng, ds2, q2))
    for _ in range(n // 2):
        k = rng.choice((1, 2, 5, 9, 15, 16, 17, 18, 19, 20, 21, 25, 40, 100, 400, 780))
        ds = str(rng.randrange(10 ** (k - 1), 10 ** k)).rstrip("0") or "1"
        lim = {"f32": (-50, 42), "f64": (-345, 315), "f80": (-310, 310)}[t]
        E = rng.choice((rng.randint(*lim), rng.randint(-20, 25), lim[0] + rng.randint(0, 25), lim[1] - rng.randint(0, 12)))
        if t == "f80":
            E = max(-300, min(300, E))
        out.append(spell(rng, ds, E - len(ds)))
    signs = ["", "", "", "-", "+", " ", "\t-", "\n +"[:2]]
    sufs = ["", "", "", "", " ", "x", "e", "e+", "E-", ".", "f", "\0", "\0009", "_1", ",5", "p3"]
    res = []
    for o in out:
        s = rng.choice(sufs)
        if s in ("e", "e+", "E-", ".", "p3") and ("e" in o.lower()) is False and s == "." and "." not in o:
            s = ""
        res.append(rng.choice(signs) + o + s)
    return res


def float_limits(t):
    """The exact boundary texts of a format: overflow, smallest normal/subnormal, their halves."""
    p, emin, bm = FMT[t]
    out = []
    if t == "f80":
        far = []
        tops = [f80(0, 32766, (1 << 64) - 1), f80(0, 32766, 1 << 63), f80(0, 30000, (1 << 63) | 0x123456789abcdef), f80(0, 17500, (1 << 63) | 1), f80(0, 20000, (1 << 64) - 1), f80(0, 14900, (1 << 63) | 12345), f80(0, 2500, 3 << 62), f80(0, 1, 1 << 63), f80(0, 1, (1 << 63) | 1), f80(0, 0, (1 << 63) - 1), f80(0, 0, 1 << 40), f80(0, 0, 2), f80(0, 0, 1)]
        for n, u in enumerate(tops):
            v, ulp = fval(t, u), fulp(t, u)
            for x in (v, v + ulp / 2, v - ulp / 2) if v > ulp else (v, v * 3 / 2, v / 2):
                ds, q = exact_dec(x)
                k = 40
                for d, e in ((ds[:k], q + len(ds) - len(ds[:k])), (str(int(ds[:k]) + 1), q + len(ds) - len(ds[:k])), (ds[:22], q + len(ds) - len(ds[:22]))):
                    far.append(("-" if n % 2 else "") + d[0] + "." + (d[1:] or "0") + "e" + str(e + len(d) - 1))
        return far + ["1e400", "-1e400", "1e-400", "1e1000", "1e-1000", "2.5e4000", "-7e-4000", "1e4931", "1e4932", "1.2e4932", "1.18973149535723176502e4932", "1.18973149535723176509e4932", "1e4933", "1e-4931", "1e-4940", "3.6e-4951", "1.8e-4951", "1.9e-4951", "1e-4951", "1e-4952", "123456789" * 40 + "e3000", "1" + "0" * 900, "0." + "0" * 900 + "123", "1e309", "-1.7976931348623159e308", "1e-325", "4e-324", "1e350",
                "1e4941", "-1e4941", "1e5000", "9" * 30 + "e5000", "1e-4971", "-1e-5000", "1e99999", "1e-99999", "1e999999999999", "-1e-999999999999", "0e99999"]
    mx = fval(t, ((bm - 1) << (p - 1)) | ((1 << (p - 1)) - 1))
    u = fulp(t, (bm - 1) << (p - 1))
    mn = fval(t, 1)
    for x in (mx, mx + u / 2, mx + u, mx + u / 4, mx - u / 2, mn, mn / 2, mn * 3 / 2, mn / 4, mn * 3 / 4,
              fval(t, 1 << (p - 1)), fval(t, 1 << (p - 1)) - mn / 2, fval(t, 1 << (p - 1)) - mn):
        ds, q = exact_dec(x)
        d = int(ds)
        for a, b in ((ds, q), (ds + "0" * 9 + "1", q - 10), (str(d * 10 ** 9 - 1), q - 9), (ds[:20], q + len(ds) - len(ds[:20])), (str(int(ds[:20]) + 1), q + len(ds) - len(ds[:20]))):
            for sg in ("", "-"):
                out.append(sg + a[0] + "." + (a[1:] or "0") + "e" + str(b + len(a) - 1))
                out.append(sg + a + "e" + str(b))
    out += ["1e99999", "1e-99999", "-1e999999999999999999999", "1e-999999999999999999999", "0e99999", "0.0e-99999", "1e400", "1e-400", "-1e-400",
            "0." + "0" * 380 + "1e381", "1" + "0" * 380 + "e-380", "123456789" * 60 + "e-530", "0." + "0" * 330 + "123", "1" + "0" * 310, "4" + "9" * 800 + "e-801",
            "2.2250738585072011e-308", "2.2250738585072012e-308", "2.4703282292062327208e-324", "2.4703282292062328e-324", "1.7976931348623158e308", "1.7976931348623159e308",
            "179769313486231580793e289", "9007199254740993", "9007199254740992.999", "9007199254740993.0000000000000000000000000001", "8.3e26", "16777217", "16777217.0000001", "3.4028235677973366e38", "3.40282356779733661637e38"]
    return out


FWORDS = ["inf", "infinity", "INF", "InFiNiTy", "+inf", "-inf", "-Infinity", "infinit", "infin", "in", "i", "infx", "infinityx", "infinity1", " -inf", "\t+infinity ", "nan", "NaN", "NAN", "-nan", "+NaN", "nanx", "nan1",
          "na", "n", "xnan", "- inf", "--inf", "-\0inf", "in\0f", "inf\0inity", "nan(", "nan(1)", "nan(abc)x", "1inf", "1nan", "0nan", ".inf", "e", "e5", ".e5", ".", "+", "-", "+.", "-.", "..", "", " ", "\0", "\0001", "1\0002",
          "1.\0005", "1e\0005", "1e5\0006", ".5", "5.", "+.5", "-.5", "-5.", "5.e2", "5.e", "5.e+", "5e+", "5e-", "5e+-2", "5e 2", "5 e2", "5e2.5", "5e2e3", "1.2.3", "1..2", "1,5", "1'000", "1_000", "00001", "-00.00100", "0.0", "-0.0", "-0", "+0",
          "0e5", "0.e", "0.", "00", "0001e0003", "1e0000000000000000000000005", "1e-0000000000000000000000005", "1e+0", "1E5", "1E-5", "1.5E+05x", "\v1", "\f1.5", "\r\n2", "\xa01", "\xff", "1\xff", "1e5\xff", "\x001.5", "++1", "--1", "+-1", "-+1", "- 1", "+ 1", "true", "null", "Infinity", "infinite", "inF inity",
          "1d5", "1f", "1.5L", "1p3", "a1", "$1", "(1)", "1e1000000", "1e-1000000", "-1e1000000", "١"]


# ------------------------------------------------------------------ byte strings

def byte_texts(rng, n, maxlen=40):
    out = [b""]
    for c in range(256):
        out.append(bytes([c]))
    special = [0, 8, 9, 10, 11, 12, 13, 27, 31, 32, 33, 34, 39, 47, 48, 57, 58, 64, 65, 90, 91, 92, 93, 96, 97, 98, 102, 110, 114, 116, 117, 122, 123, 126, 127, 128, 0xc3, 0xff]
    for a in special:
        for b in special:
            out.append(bytes([a, b]))
    for s in (b"\\u0041", b"\\\\", b"\\\"", b"\"quoted\"", b"a\\nb", "é€😀".encode(), b"\xc3\x28", b"\xed\xa0\x80", b"</script>", b"\\", b"\\\\\\", b"tab\there", b"nul\0inside", b"abc\x7fdef", b"\x1f\x20\x7e\x7f\x80", b"\0\0\0", b"a" * 300, b"\"" * 200, b"\x01" * 130, b"\xff" * 100, bytes(range(256)), bytes(range(255, -1, -1)), b"\\" * 257):
        out.append(s)
    for _ in range(n):
        k = rng.randint(1, maxlen)
        if rng.random() < .5:
            out.append(bytes(rng.choice(special) for _ in range(k)))
        else:
            out.append(bytes(rng.getrandbits(8) for _ in range(k)))
    for _ in range(3):
        out.append(bytes(rng.getrandbits(8) for _ in range(3000)))
    return uniq(out)


WORDS = [b"null", b"true", b"false"]


def word_bytes(words=WORDS):
    """Every byte inserted at, and put instead of, every position of every word."""
    return uniq([w[:i] + bytes([v]) + w[i + d:] for w in words for i in range(len(w) + 1) for v in range(256) for d in (0, 1) if i + d <= len(w)])


def word_texts(rng, words=WORDS, n=200):
    """Near misses of every word: one edit away, prefixes, suffixes, case, embedded NULs, other words."""
    out = [b"", b"0", b"1", b"nil", b"None", b"TRUE", b"yes", b"no", b"on", b"off", b"NULL", b"nullptr", b"t", b"f", b"n", b"\0", b" ", b"0.0"]
    out += SYNONYMS
    for w in list(words):
        out.append(w)
        for i in range(len(w) + 1):
            out.append(w[:i])
            out.append(w[i:])
            for c in (b"\0", b" ", b"x", w[:1], b"\n", b"\xff", bytes([w[i - 1]]) if w else b"q"):
                out.append(w[:i] + c + w[i:])
                out.append(w[:i] + c + w[i + 1:])
        for i in range(len(w)):
            out.append(w[:i] + w[i + 1:])
            out.append(w[:i] + w[i:i + 1].swapcase() + w[i + 1:])
            out.append(w[:i] + bytes([w[i] ^ 0x80]) + w[i + 1:])
            out.append(w[:i] + bytes([(w[i] + 1) & 255]) + w[i + 1:])
            if i + 1 < len(w):
                out.append(w[:i] + w[i + 1:i + 2] + w[i:i + 1] + w[i + 2:])
        out += [w.upper(), w.capitalize(), w + w, b" " + w, w + b" ", w + b"\n", w + b"\0", w + b"\0" + w, b"\0" + w, b'"' + w + b'"', w[::-1], w + b"e", w + b"s"]
        for v in words:
            out += [w + v, w + b" " + v, w[:2] + v[2:], w[:len(w) // 2] + v[len(v) // 2:]]
    for _ in range(n):
        w = bytearray(rng.choice(words) or b"q")
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(4)
            i = rng.randrange(len(w) + 1)
            if k == 0:
                w[i:i] = bytes([rng.getrandbits(8)])
            elif k == 1 and w:
                del w[i % len(w)]
            elif k == 2 and w:
                w[i % len(w)] = rng.getrandbits(8)
            else:
                w += rng.choice(words)[:3]
        out.append(bytes(w))
    return uniq(out)


SYNONYMS = [w.encode("utf-8") for w in ("0", "1", "-1", "2", "00", "01", "yes", "no", "on", "off", "y", "n", "t", "f", "T", "F", "True", "TRUE", "False", "FALSE", "tRUE", "nil", "None", "Null", "NULL", "nullptr", "undefined", "void", "NaN", "", " ", "\n", "0.0", "1.0", "#t", "#f", "enabled", "ok",
                                              "\"true\"", "'true'", "true,", "true;", "true false", "!true", "nul\u006c", "tr\u00fce", "\ufefftrue", "\uff54rue", "true\u00a0", "\u0000true", "n", "u", "()", "{}", "[]", "~")]


def position_sweep(rng):
    """One special byte at every position of texts of many lengths, among ordinary bytes."""
    out = []
    hot = [0x22, 0x5c, 0x0a, 0x00, 0x1f, 0x20, 0x2f, 0x7f, 0x80, 0xff, 0x08, 0x41]
    for n in list(range(1, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129]:
        for p in range(n) if n < 100 else (0, 1, n // 2, n - 2, n - 1):
            for c in rng.sample(hot, 3):
                s = bytearray(rng.choice((b"a", b"Z", b"0", b"\xc3", b"\x80")) * n)
                s[p] = c
                out.append(bytes(s))
    return out


def long_bytes(rng, full=False):
    out = []
    sizes = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70000]
    for n in sizes if full else sizes[:13] + rng.sample(sizes[13:17], 2) + sizes[17:]:
        for kind in range(4) if n < 5000 or full else (rng.randrange(2), 2):
            if kind == 0:
                s = bytearray(b"a" * n)
                s[rng.choice((0, n // 2, n - 1, n - 2))] = rng.choice((0x22, 0x5c, 0x0a, 0x80, 0x00))
            elif kind == 1:
                s = bytes([rng.choice((0x22, 0x01, 0x5c, 0x20, 0xff, 0x7f))]) * n
            elif kind == 2:
                s = rng.randbytes(n)
            else:
                s = bytes(rng.choice(b'ab"\\\n\x01 \x80') for _ in range(n))
            out.append(bytes(s))
    return out


def long_ints():
    out = []
    for n in (500, 4096, 65535, 65536, 66000):
        out += [" " * n + "-42", "\t\n " * (n // 3) + "7x", "0" * n + "123", "-" + "0" * n + "18446744073709551615", "12" + "x" * n, "9" * n, "-" + "1" * n, " " * n, "0" * n, "+" + "0" * n + "5 " + "6" * n]
    return out


def long_floats(rng):
    out = []
    for n in (500, 4096, 65536, 66000):
        out += [" " * n + "-1.5", "0" * n + "2.5", "0." + "0" * n + "1e%d" % (n + 1), "1" + "0" * n + "e-%d" % n, "1.5" + "0" * n, "1.5" + "x" * n, "1e" + "0" * n + "5", "1e-" + "0" * n + "5", "1" + "0" * n, "0." + "0" * n + "1", " " * n, "0" * n, "-." + "0" * n, "1e" + "9" * n, "1e-" + "9" * n, "infinity" + "z" * n, "." * n]
    for n in (800, 1500, 2000):
        out += ["9007199254740993." + "0" * n + "1", "9007199254740993." + "0" * n, "9007199254740992." + "9" * n, "16777217." + "0" * n + "1", "16777216." + "9" * n, "18446744073709551617." + "0" * n + "1",
                "0." + "3" * n, str(rng.randrange(10 ** (n - 1), 10 ** n)) + "e-%d" % n, "1." + "0" * n + "1e-300", "4.9406564584124654" + "1" * n + "e-324"]
    return out


def cut(seq, size, overlap):
    return [seq[i:i + size + overlap] for i in range(0, max(len(seq) - overlap, 1), size)]


def de_bruijn_triples(rng, alphabet, size=600):
    """A sequence in which every three bytes of the alphabet are adjacent somewhere (a cyclic de Bruijn sequence of order 3), cut into overlapping pieces."""
    al = list(alphabet)
    rng.shuffle(al)
    k, out, a = len(al), [], [0] * (len(al) * 3)

    def db(t, p):
        if t > 3:
            if 3 % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    seq = bytes(al[i] for i in out)
    return cut(seq + seq[:2], size, 2)


FAMOUS = [x.encode("utf-8") for x in ("\u2028", "\u2029", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\u0085", "\u00a0", "\u200b", "\u200d", "\u2060", "\u202e", "\u00e9", "e\u0301", "\u00df", "\u0130", "\u0131", "\u20ac", "\ud7ff", "\ue000",
                                      "\U0001f600", "\U0010ffff", "\U00010000", "\U0001f1e9\U0001f1ea", "</script>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#x27;", "%00", "%22", "\\u0000", "\\u001f", "\\\"", "\\\\\"", "\\n", "\n\r", "\r\n", "\t\t",
                                      "${x}", "$(x)", "`x`", "'\"'", "//", "/*", "*/", "\x1b[0m", "\x7f\x7f", "\\x41", "\\/", "a\0b", "\0\0", "null", "true", "\"\"", "\"a\"", "\\", "\"", "\x1f\"", "{}", "[1,2]")] + [
    b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xed\xa0\xbd\xed\xb8\x80", b"\xc0\x80", b"\xc0\xaf", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe\xff", b"\xff\xfe",
    b"\xe2\x80", b"\xe2", b"\xf0\x9f\x98", b"\xc3", b"\x80", b"\xbf", b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xef\xb7\x90"]


def utf8_texts(rng, full=False):
    """Every well-formed three-byte sequence, many four-byte ones, the truncated and overlong ones, and character sequences that encoders like to single out."""
    cps = [c for c in range(0x800, 0x10000) if not 0xd800 <= c < 0xe000]
    rng.shuffle(cps)
    out = ["".join(map(chr, p)).encode("utf-8") for p in chunked(cps, 300)]
    four = list(range(0x10000, 0x110000)) if full else [rng.randrange(0x10000, 0x110000) for _ in range(1500)] + [x for p in range(1, 17) for x in (p << 16, (p << 16) + 0xfffe, (p << 16) + 0xffff)] + list(range(0x1f600, 0x1f640))
    rng.shuffle(four)
    out += ["".join(map(chr, p)).encode("utf-8") for p in chunked(four, 300)]
    for f in FAMOUS:
        out += [f, b"a" + f, f + b"a", b"<" + f + b">", f + f, b'"' + f, f + b'"', b"x" * 30 + f + b"y" * 30, f[:-1], f + rng.choice(FAMOUS), rng.choice(FAMOUS) + f]
    return uniq(out)


def number_oddities():
    """Texts that some readers of numbers treat specially."""
    odd = ["0x1F", "0X1f", "0b101", "0o17", "017", "-017", "+017", "1e3", "1E3", "-2e+2", "1,000", "1.000", "1 000", "1_000", "1'000", "12,5", "--5", "+-5", "-+5", "- 5", "+ 5", "-\t5", "1L", "1u", "1ull", "1f", "1.9", "-1.9", ".5", "-.5", "5.", "1e", "1e+", "1e-x",
           "nan", "NaN(12)", "-nan", "inf", "-INF", "infinit", "infinity", "INFINITYx", "true", "false", "null", "1e5.5", "1.2.3", "1-2", "1+2", "1/2", "50%", "$5", "#10", "(5)", "[5", "\"5\"", "'5'", "5e0", "00", "-0", "+0", "0-", "0x", "0x-1", "1k", "1K", "1M", "2^3", "1e3e3", "..5", "-", "+", ".", "e5", "E", "-e", "1 e5", "1e 5", "1 .5", "1. 5", "- .5",
           "\u00bd", "\u0661\u0662", "\uff11\uff12", "\u22125", "\u00a05", "\ufeff5", "\u20095", "\u2028" "5", "\u00b2", "5\u00b2", "\u0665", "\u07c1", "\u0967", "\u200b5", "1\u00a0000", "1\u202f000", "1\u066b5"]
    out = [x.encode("utf-8") for x in odd]
    for f in FAMOUS:
        out += [f + b"12", b"1" + f + b"2", b"-" + f + b"3", b"1." + f + b"5", b"7e" + f + b"1"]
    return [x.decode("latin-1") for x in uniq(out)]
