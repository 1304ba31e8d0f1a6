------------------------------- MODULE Floats -------------------------------
(***************************************************************************)
(* Binary floating-point values, decimal texts, and the exact relations    *)
(* between them: rounding interval, shortness, closeness, layout, correct  *)
(* rounding.                                                               *)
(*                                                                         *)
(* A value is its bit pattern as little-endian 16-bit words.  Formats:     *)
(* f32 (binary32), f64 (binary64), f80 (x87 extended).                     *)
(*                                                                         *)
(* An exact non-negative dyadic/decimal number is a record [b, s]: the     *)
(* number b * 10000^(-s), b in base-10000 limbs.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bytes

LOCAL D == INSTANCE BigNat WITH B <- 10000

(***************************************************************************)
(* Tables of the powers of two and five, padded with four zero limbs on    *)
(* each side so that a five-limb product needs no case distinction.        *)
(***************************************************************************)
CONSTANT PowMax            \* 1240 (1241: and the far powers, for f80); 0 where no float is judged (saves building the tables)
Z4 == <<0, 0, 0, 0>>
Powers(b) == FoldLeft(LAMBDA acc, i : Append(acc, D!MulSmall(acc[Len(acc)], b)),
                      <<D!One>>, [i \in 1 .. PowMax |-> i])
(* Pow2P[k+1] = 2^k;  Pow5P[k+1] = 5^k * 10^r, r in 0..3 such that k + r is a multiple of 4 *)
Pow2P == LET p == Powers(2) IN [i \in 1 .. (PowMax + 1) |-> Z4 \o p[i] \o Z4]
PadTen(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 3 -> 10 [] k % 4 = 2 -> 100 [] OTHER -> 1000
Pow5P == LET p == Powers(5)
         IN [i \in 1 .. (PowMax + 1) |-> Z4 \o D!MulSmall(p[i], PadTen(i - 1)) \o Z4]

(* Product of a number below 10^20 and a padded power. *)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
M5(a, p) ==
  LET a1 == Limb(a, 1)  a2 == Limb(a, 2)  a3 == Limb(a, 3)  a4 == Limb(a, 4)  a5 == Limb(a, 5)
  IN D!Carry([k \in 1 .. (Len(p) - 4) |->
                a1 * p[k + 4] + a2 * p[k + 3] + a3 * p[k + 2] + a4 * p[k + 1] + a5 * p[k]])

Pad(n) == Z4 \o n \o Z4
Unpad(p) == SubSeq(p, 5, Len(p) - 4)

(* The far powers, for the range of the x87 format: every 200th, and a      *)
(* product with one of the first 200 for those between.                    *)
FarSteps == IF PowMax > 1240 THEN 83 ELSE 0
FarMax == IF PowMax > 1240 THEN 200 * FarSteps ELSE PowMax
(* a * b, by groups of five limbs of b.  (Folding over a one-element       *)
(* sequence makes TLC evaluate the element, once.)                         *)
Once(Op(_, _), x, y) == FoldLeft(Op, x, <<y>>)
MulFar(a, b) ==
  LET Groups(p, bb) == [i \in 1 .. ((Len(bb) + 4) \div 5) |->
                          <<5 * (i - 1), SubSeq(bb, 5 * i - 4, IF 5 * i < Len(bb) THEN 5 * i ELSE Len(bb)), p>>]
      AddOne(acc, x) == Once(LAMBDA u, v : D!Add(u, v), acc, [k \in 1 .. x[1] |-> 0] \o M5(x[2], x[3]))
  IN FoldLeft(AddOne, <<>>, Once(Groups, Pad(a), b))
FarPowers(step) == FoldLeft(LAMBDA acc, i : Append(acc, MulFar(acc[Len(acc)], step)), <<D!One>>, [i \in 1 .. FarSteps |-> i])
Far2 == FarPowers(IF FarSteps = 0 THEN D!One ELSE Unpad(Pow2P[201]))
Far5 == FarPowers(IF FarSteps = 0 THEN D!One ELSE Unpad(Pow5P[201]))       \* 200 is a multiple of 4: no padding in it
Pow2At(k) == IF k <= PowMax THEN Pow2P[k + 1]
             ELSE Pad(MulFar(Far2[(k \div 200) + 1], Unpad(Pow2P[(k % 200) + 1])))
Pow5At(k) == IF k <= PowMax THEN Pow5P[k + 1]
             ELSE Pad(MulFar(Far5[(k \div 200) + 1], Unpad(Pow5P[(k % 200) + 1])))

(* n * 2^e, exactly; n < 10^20 and |e| <= FarMax *)
Dyadic(n, e) == IF e >= 0 THEN [b |-> M5(n, Pow2At(e)), s |-> 0]
                ELSE [b |-> M5(n, Pow5At(-e)), s |-> (3 - e) \div 4]

PowerOfTwo(e) == IF e >= 0 THEN [b |-> Unpad(Pow2At(e)), s |-> 0]
                 ELSE [b |-> Unpad(Pow5At(-e)), s |-> (3 - e) \div 4]

(***************************************************************************)
(* Formats                                                                 *)
(***************************************************************************)
FloatTypes == {"f32", "f64", "f80"}

P2(k) == 2 ^ k
(* sign, biased exponent, significand (BigNat) of a bit pattern *)
Decode(t, v) ==
  CASE t = "f64" ->
         LET top == v[4] % 32768
             be  == top \div 16
         IN [neg |-> v[4] >= 32768, be |-> be,
             frac0 |-> top % 16 = 0 /\ v[3] = 0 /\ v[2] = 0 /\ v[1] = 0,
             m |-> D!FromWords(<<v[1], v[2], v[3], (top % 16) + (IF be > 0 THEN 16 ELSE 0)>>),
             odd |-> v[1] % 2 = 1,
             e |-> (IF be > 0 THEN be ELSE 1) - 1075, bemax |-> 2047]
    [] t = "f32" ->
         LET top == v[2] % 32768
             be  == top \div 128
         IN [neg |-> v[2] >= 32768, be |-> be,
             frac0 |-> top % 128 = 0 /\ v[1] = 0,
             m |-> D!FromWords(<<v[1], (top % 128) + (IF be > 0 THEN 128 ELSE 0)>>),
             odd |-> v[1] % 2 = 1,
             e |-> (IF be > 0 THEN be ELSE 1) - 150, bemax |-> 255]
    [] OTHER ->
         LET be == v[5] % 32768
         IN [neg |-> v[5] >= 32768, be |-> be,
             frac0 |-> v[4] % 32768 = 0 /\ v[3] = 0 /\ v[2] = 0 /\ v[1] = 0,
             m |-> D!FromWords(<<v[1], v[2], v[3], v[4]>>),
             odd |-> v[1] % 2 = 1,
             e |-> (IF be > 0 THEN be ELSE 1) - 16446, bemax |-> 32767]

IsNaN(t, v) == LET f == Decode(t, v) IN f.be = f.bemax /\ ~f.frac0
IsInf(t, v) == LET f == Decode(t, v) IN f.be = f.bemax /\ f.frac0
IsFinite(t, v) == LET f == Decode(t, v) IN f.be < f.bemax
IsZero(t, v) == LET f == Decode(t, v) IN f.be < f.bemax /\ f.m = <<>>
Negative(t, v) == Decode(t, v).neg

(* The largest finite pattern of a format, and its zero. *)
MaxFinite(t) == CASE t = "f64" -> <<65535, 65535, 65535, 32751>>
                  [] t = "f32" -> <<65535, 32639>>
                  [] OTHER -> <<65535, 65535, 65535, 65535, 32766>>

(* The value as an exact number. *)
Value(t, v) == LET f == Decode(t, v) IN Dyadic(f.m, f.e)

(***************************************************************************)
(* Decimals: digits (values, most significant first) times 10^q.           *)
(***************************************************************************)
RECURSIVE Group4(_, _)
Group4(ds, i) == IF i > Len(ds) THEN <<>>
                 ELSE <<ds[i] * 1000 + ds[i + 1] * 100 + ds[i + 2] * 10 + ds[i + 3]>> \o Group4(ds, i + 4)
(* the number with decimal digits ds followed by t zeros, t >= 0 *)
DecNat(ds, t) ==
  LET pad == ds \o Rep(0, t % 4)
      k   == (4 - (Len(pad) % 4)) % 4
      lm  == Reverse(Group4(Rep(0, k) \o pad, 1))
  IN D!ShiftLimbs(D!Trim(lm), t \div 4)

(* Bring n = [b, s] and the decimal ds * 10^q to a common scale s2 >= s.   *)
CommonScale(n, q) == IF q + 4 * n.s >= 0 THEN n.s ELSE (3 - q) \div 4
Rescale(n, s2) == D!ShiftLimbs(n.b, s2 - n.s)

(***************************************************************************)
(* Everything the rounding-interval relations need, on one scale:          *)
(*   V = 4 m P   the value       P = a quarter of the unit in the last place *)
(*   DD          the decimal                                               *)
(*   AB = |DD - V|,  above = DD >= V                                       *)
(*   Half = the half-width of the rounding interval on DD's side           *)
(***************************************************************************)
Four(n) == D!MulSmall(n, 4)
OfInt(n) == D!Of(n)
Frame(f, DD, s2, P, V) ==
  LET above == D!Leq(V, DD)
  IN [DD |-> DD, V |-> V, P |-> P, s |-> s2, above |-> above,
      AB |-> IF above THEN D!Sub(DD, V) ELSE D!Sub(V, DD),
      narrow |-> f.frac0 /\ f.be > 1]
FrameOfDec(f, ds, q) ==
  LET q0 == PowerOfTwo(f.e - 2)                       \* ulp / 4
      v0 == Dyadic(Four(f.m), f.e - 2)
      s2 == CommonScale(q0, q)
  IN Frame(f, DecNat(ds, q + 4 * s2), s2, Rescale(q0, s2), Rescale(v0, s2))
FrameOfNum(f, n) ==
  LET q0 == PowerOfTwo(f.e - 2)
      v0 == Dyadic(Four(f.m), f.e - 2)
      s2 == IF n.s > q0.s THEN n.s ELSE q0.s
  IN Frame(f, Rescale(n, s2), s2, Rescale(q0, s2), Rescale(v0, s2))

(* The decimal rounds to the value (nearest, ties to even). *)
RoundsTo(f, fr) ==
  LET h == IF fr.narrow /\ ~fr.above THEN fr.P ELSE D!MulSmall(fr.P, 2)
      c == D!Cmp(fr.AB, h)
  IN c < 0 \/ (c = 0 /\ ~f.odd)

(***************************************************************************)
(* The lexer of decimal texts (the longest prefix rule).                   *)
(***************************************************************************)
WordInf == <<105, 110, 102>>
WordInfinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
WordNan == <<110, 97, 110>>

(* The decimal number at s[i..j], saturating at 99999. *)
ClipNum(s, i, j) == FoldLeft(LAMBDA acc, c : IF acc > 9999 THEN 99999 ELSE acc * 10 + (c - 48), 0, SubSeq(s, i, j))

LexFloat(s) ==
  LET i0  == SkipSpace(s, 1)
      neg == Chr(s, i0) = MINUS
      i1  == IF Chr(s, i0) \in {PLUS, MINUS} THEN i0 + 1 ELSE i0
  IN IF HasWordAt(s, i1, WordInf)
       THEN [k |-> "inf", neg |-> neg, ds |-> <<>>, q |-> 0,
             n |-> IF HasWordAt(s, i1, WordInfinity) THEN i1 + 8 ELSE i1 + 3]
     ELSE IF HasWordAt(s, i1, WordNan)
       THEN [k |-> "nan", neg |-> neg, ds |-> <<>>, q |-> 0, n |-> i1 + 3]
     ELSE IF Chr(s, i1) = 48 /\ Chr(s, i1 + 1) \in {120, 88}
       THEN [k |-> "hex", neg |-> neg, ds |-> <<>>, q |-> 0, n |-> i1]
     ELSE
     LET i2 == SkipDigits(s, i1)                               \* integral digits i1 .. i2-1
         dot == Chr(s, i2) = DOT
         i3 == IF dot THEN SkipDigits(s, i2 + 1) ELSE i2       \* fraction digits i2+1 .. i3-1
         nint == i2 - i1
         nfrac == IF dot THEN i3 - i2 - 1 ELSE 0
     IN IF nint + nfrac = 0
          THEN [k |-> "none", neg |-> FALSE, ds |-> <<>>, q |-> 0, n |-> 1]
        ELSE
        LET hasE == Chr(s, i3) \in {LOWE, UPE}
            j1 == IF hasE /\ Chr(s, i3 + 1) \in {PLUS, MINUS} THEN i3 + 2 ELSE i3 + 1
            j2 == SkipDigits(s, j1)
            isE == hasE /\ j2 > j1
            ex == IF isE THEN (IF Chr(s, i3 + 1) = MINUS THEN -1 ELSE 1) * ClipNum(s, j1, j2 - 1) ELSE 0
            all == SubSeq(s, i1, i2 - 1) \o (IF dot THEN SubSeq(s, i2 + 1, i3 - 1) ELSE <<>>)
            a == SkipZeros(all, 1)
            z == LastNonZero(all, Len(all))
        IN IF a > Len(all)
             THEN [k |-> "zero", neg |-> neg, ds |-> <<>>, q |-> 0, n |-> IF isE THEN j2 ELSE i3]
             ELSE [k |-> "num", neg |-> neg, ds |-> DigitVals(SubSeq(all, a, z)),
                   q |-> ex - nfrac + (Len(all) - z), n |-> IF isE THEN j2 ELSE i3]

(***************************************************************************)
(* Reading: x (of format t) is a correct result for the text s.            *)
(***************************************************************************)
DecExp(l) == l.q + Len(l.ds)            \* the number is in [10^(DecExp-1), 10^DecExp)
CorrectlyRead(t, s, x) ==
  LET l == LexFloat(s)
      big == IF t = "f80" THEN 4940 ELSE 400        \* far outside the format's range
  IN CASE l.k = "hex" -> TRUE
       [] l.k = "nan" -> IsNaN(t, x)
       [] l.k = "inf" -> IsInf(t, x) /\ Negative(t, x) = l.neg
       [] l.k \in {"none", "zero"} -> IsZero(t, x)
       [] OTHER ->
          IF DecExp(l) > big THEN IsInf(t, x) /\ Negative(t, x) = l.neg
          ELSE IF DecExp(l) < (IF t = "f80" THEN -4970 ELSE -big) THEN IsZero(t, x)
          ELSE IF t = "f80" /\ PowMax < 1241 /\ (DecExp(l) > 320 \/ DecExp(l) < -320) THEN ~IsNaN(t, x)
          ELSE IF IsNaN(t, x) THEN FALSE
          ELSE /\ IsZero(t, x) \/ Negative(t, x) = l.neg
               /\ IF IsInf(t, x)
                  THEN LET f == Decode(t, MaxFinite(t))
                           fr == FrameOfDec(f, l.ds, l.q)
                       IN fr.above /\ ~RoundsTo(f, fr)
                  ELSE LET f == Decode(t, x)
                       IN /\ f.e > 2 - FarMax /\ f.e < FarMax
                          /\ RoundsTo(f, FrameOfDec(f, l.ds, l.q))

(* y (of format u) is the value of x (of format t) rounded to nearest even. *)
CorrectlyConverted(t, x, u, y) ==
  IF IsNaN(t, x) THEN IsNaN(u, y)
  ELSE IF IsInf(t, x) THEN IsInf(u, y) /\ Negative(u, y) = Negative(t, x)
  ELSE LET f == Decode(t, x)
       IN IF t = "f80" /\ f.m # <<>> /\ f.be > 16383 + 1100 THEN IsInf(u, y) /\ Negative(u, y) = f.neg
          ELSE IF f.m = <<>> \/ (t = "f80" /\ f.be < 16383 - 1150) THEN IsZero(u, y)
          ELSE /\ ~IsNaN(u, y)
               /\ IsZero(u, y) \/ Negative(u, y) = f.neg
               /\ IF IsInf(u, y)
                  THEN LET g == Decode(u, MaxFinite(u))
                           fr == FrameOfNum(g, Dyadic(f.m, f.e))
                       IN fr.above /\ ~RoundsTo(g, fr)
                  ELSE LET g == Decode(u, y) IN RoundsTo(g, FrameOfNum(g, Dyadic(f.m, f.e)))

(***************************************************************************)
(* Writing a double.                                                       *)
(***************************************************************************)
(* A text that is, as a whole, one plain or scientific decimal number.     *)
IsDecimal(r, l) == l.k = "num" /\ l.n = Len(r) + 1 /\ r # <<>> /\ (r[1] = MINUS \/ IsDigit(r[1]))

Identifies(v, l) ==                                        \* C04
  LET f == Decode("f64", v)
  IN /\ l.neg = f.neg
     /\ Len(l.ds) <= 17
     /\ DecExp(l) < 320 /\ DecExp(l) > -340
     /\ RoundsTo(f, FrameOfDec(f, l.ds, l.q))

(* C05.  With u = 10^q the unit of the last printed digit: no multiple of  *)
(* 10u in the inner interval (99% of each half), and neither DD - u nor    *)
(* DD + u, when in the inner interval, is closer by more than 1% of ulp/2. *)
(*                                                                         *)
(* The margins make exact arithmetic unnecessary here: all quantities are  *)
(* cut to the places of the three leading limbs of P (relative error below *)
(* 10^-7 of P), and the thresholds are tightened by 0.1% of the interval,  *)
(* so whatever is rejected violates the exact clause too.                  *)
Cut(n, k) == IF k >= Len(n) THEN <<>> ELSE SubSeq(n, k + 1, Len(n))
ShortestBy(f, l, inner, slack) ==
  LET fr == FrameOfDec(f, l.ds, l.q)
      k0 == IF Len(fr.P) > 3 THEN Len(fr.P) - 3 ELSE 0
      P  == Cut(fr.P, k0)
      AB == Cut(fr.AB, k0)
      T  == Cut(DecNat(<<1>>, l.q + 4 * fr.s), k0)          \* u on the common scale
      up1000 == D!MulSmall(P, 2 * inner)                         \* 1000 * inner half-width above
      lo1000 == IF fr.narrow THEN D!MulSmall(P, inner) ELSE up1000
      r  == l.ds[Len(l.ds)]                                  \* last digit, non-zero
      (* offset of DD + k u from V: <<is it >= V, magnitude>> *)
      Off(k) == IF k >= 0
                THEN LET kt == D!MulSmall(T, k)
                     IN IF fr.above THEN <<TRUE, D!Add(AB, kt)>>
                        ELSE IF D!Leq(AB, kt) THEN <<TRUE, D!Sub(kt, AB)>>
                        ELSE <<FALSE, D!Sub(AB, kt)>>
                ELSE LET kt == D!MulSmall(T, -k)
                     IN IF ~fr.above THEN <<FALSE, D!Add(AB, kt)>>
                        ELSE IF D!Leq(kt, AB) THEN <<TRUE, D!Sub(AB, kt)>>
                        ELSE <<FALSE, D!Sub(kt, AB)>>
      Inner(o) == D!Leq(D!MulSmall(o[2], 1000), IF o[1] THEN up1000 ELSE lo1000)
      Closer(o) == /\ D!Lt(o[2], AB)                         \* noticeably closer than DD
                   /\ Inner(o)
                   /\ D!Lt(D!MulSmall(P, 2 * slack), D!MulSmall(D!Sub(AB, o[2]), 1000))
  IN /\ \A k \in {-r - 10, -r, 10 - r, 20 - r} : ~Inner(Off(k))
     /\ ~Closer(Off(1)) /\ ~Closer(Off(-1))
Shortest(v, l) == ShortestBy(Decode("f64", v), l, 989, 11)

(* C06: the canonical layout of sign, digits (no leading or trailing zero) *)
(* and decimal exponent E: 10^(E-1) <= value < 10^E.                       *)
RECURSIVE NatText(_)
NatText(k) == IF k < 10 THEN <<48 + k>> ELSE NatText(k \div 10) \o <<48 + (k % 10)>>
ExpText(x) == IF x < 0 THEN <<MINUS>> \o NatText(-x) ELSE NatText(x)
Layout(neg, ds, E) ==
  LET n == Len(ds)
      c == [i \in 1 .. n |-> ds[i] + 48]
      body == IF n <= E /\ E <= 21 THEN c \o Rep(48, E - n) \o <<DOT, 48>>
              ELSE IF 0 < E /\ E < n /\ E <= 21 THEN SubSeq(c, 1, E) \o <<DOT>> \o SubSeq(c, E + 1, n)
              ELSE IF -6 < E /\ E <= 0 THEN <<48, DOT>> \o Rep(48, -E) \o c
              ELSE (IF n = 1 THEN c ELSE <<c[1], DOT>> \o SubSeq(c, 2, n))
                     \o <<LOWE>> \o ExpText(E - 1)
  IN IF neg THEN <<MINUS>> \o body ELSE body

(* The magnitude shown is that of the value: within 10% of it. *)
SameMagnitude(v, l) ==
  LET f  == Decode("f64", v)
      fr == FrameOfDec(f, l.ds, l.q)
  IN D!Leq(D!MulSmall(fr.AB, 10), fr.V)
=============================================================================
