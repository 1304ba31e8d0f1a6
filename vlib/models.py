"""Design-level model checking with TLC: the properties on the specification itself, and on the algorithms at reduced size.
A failure here is a fault of the specification, not of the code (exit 2)."""
from .core import CheckError, tlc


def check(module, cfg, name, expect=0, args=(), timeout=800, bounds=""):
    r = tlc(module, cfg, args=args, timeout=timeout)
    if r["rc"] != expect:
        raise CheckError("model %s: TLC returned %d, expected %d\n%s" % (name, r["rc"], expect, r["out"][-3000:]))
    if expect == 0 and r["distinct"] == 0:
        raise CheckError("model %s explored nothing\n%s" % (name, r["out"][-2000:]))
    return dict(name=name, module=module, states=r["distinct"], transitions=r["generated"], wall_s=round(r["wall"], 1), bounds=bounds,
                outcome="holds" if expect == 0 else "violated, as intended (negative control)")


def both(*rs):
    return dict(name=" + ".join(r["name"] for r in rs), parts=list(rs), states=sum(r["states"] for r in rs), transitions=sum(r["transitions"] for r in rs))


HEAD = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


def ints():
    return check("MCInts", HEAD + "INVARIANT Inv\nCONSTANT Edge16 = {0, 1, 9999, 32767, 32768, 65535}\n", "integers",
                 bounds="all 8/16-bit values; 32/64-bit patterns over 6 boundary words")


def itoa(quick):
    def run():
        c = HEAD + "INVARIANT Exact\nCONSTANTS R = %d Max = %d W = %d\n"
        rs = [check("MCItoa", c % (2, 1 << 10, 32), "u32 cascade, radix 2", bounds="all values"),
              check("MCItoa", c % (2, 1 << (17 if quick else 20), 64), "u64 cascade, radix 2", bounds="values below 2^%d" % (17 if quick else 20))]
        if not quick:
            rs.append(check("MCItoa", c % (3, 3 ** 10, 32), "u32 cascade, radix 3", bounds="all values"))
        return both(*rs)
    return run


def grisu_cfg(P, Q, emin, emax, inner, slack, slip=0, inv="INVARIANTS Fits Identifying NoTrailingZero ShortestDigits\n", live=False):
    c = "PowMax = 64 P = %d Q = %d EDown = %d EMax = %d KDown = 4 KMax = 9 Inner = %d Slack = %d Slip = %d\n" % (P, Q, -emin, emax, inner, slack, slip)
    return ("SPECIFICATION Spec\nPROPERTY Terminates\n" if live else "INIT Init\nNEXT Next\n") + "CHECK_DEADLOCK FALSE\n" + inv + "CONSTANTS " + c


def grisu(quick):
    def run():
        rs = [check("MCGrisu", grisu_cfg(5, 14, -28, 8, 940, 60, live=True), "Grisu2, 5-bit significand, 14-bit working precision", bounds="every significand and exponent -28..8, subnormals included; every admissible power of ten"),
              check("MCGrisu", grisu_cfg(5, 14, -28, 8, 940, 60, slip=1, inv="INVARIANT Identifying\n"), "Grisu2 without shrinking the upper boundary", expect=12)]
        if not quick:
            rs += [check("MCGrisu", grisu_cfg(7, 14, -30, 6, 800, 200), "Grisu2, 7-bit significand", bounds="-30..6"),
                   check("MCGrisu", grisu_cfg(4, 15, -28, 8, 970, 30), "Grisu2, 4-bit significand, 15-bit working precision", bounds="-28..8")]
        return both(*rs)
    return run


def layout():
    return check("MCLayout", HEAD + "INVARIANT Inv\nCONSTANTS PowMax = 0 FloatSize = 30 EDown = 330 EMax = 312\n", "layout in place", bounds="1..18 digits, exponents -330..312, both signs")


def reading():
    return check("MCReading", HEAD + "INVARIANT Inv\nCONSTANT PowMax = 1240\n", "reading is a function", bounds="f32 and f64 boundary patterns; exact, midpoint, just above, just below")


def texts(quick):
    def run():
        return check("MCTexts", HEAD + "INVARIANT Inv\nCONSTANTS Alphabet = {0, 8, 31, 32, 34, 48, 92, 117, 127, 128} N = %d\n" % (3 if quick else 5), "encodings", bounds="all bytes, class strings up to length %d" % (3 if quick else 5))
    return run


def heap():
    c = HEAD + "INVARIANTS Independent OwnMemory\nCONSTANTS Slots = {1, 2, 3} Keys = {1, 2} Deep = %s\n"
    return both(check("MCHeap", c % "TRUE", "formatter memory, deep copies", bounds="3 objects, 2 values, every history"),
                check("MCHeap", c % "FALSE", "formatter memory, shallow copies", expect=12))


def dtoa_bounds():
    return both(check("MCDtoaBounds", HEAD + "INVARIANT Inv\nCONSTANTS XDown = 1138 XMax = 961 TableSize = 87 Power10Size = 20\n", "table indices of the double formatter", bounds="every binary exponent"), layout())


def threads():
    c = HEAD + "INVARIANT Undisturbed\nCONSTANTS Threads = {1, 2, 3} Values = {1, 2, 5} Private = %s\n"
    return both(check("MCThreads", c % "TRUE", "private scratch buffers", bounds="3 threads, 4 values, every interleaving"),
                check("MCThreads", c % "FALSE", "shared scratch buffer", expect=12))


def big():
    return check("MCBig", HEAD + "INVARIANT Inv\nCONSTANTS Bits = 2 Cap = 4\n", "big integer, 2-bit words", bounds="every pair of 4-word numbers; every word and shift")
