------------------------------ MODULE DiyTrace ------------------------------
(***************************************************************************)
(* The extended-precision numbers behind the double formatter: f * 2^e     *)
(* with a 64-bit f.  Taking a double apart, normalising, forming the       *)
(* boundaries and subtracting are exact; a product is the exact product    *)
(* rounded to 64 bits, halves up; a cached power is the 64-bit number      *)
(* nearest to a power of ten, chosen so that the product's exponent falls  *)
(* where the digit generator needs it.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

CONSTANTS Prop, TraceFile
X == INSTANCE BigNat WITH B <- 256
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid][l]

BytesOf(ws) == X!Trim([i \in 1 .. (2 * Len(ws)) |->
                  IF i % 2 = 1 THEN ws[(i + 1) \div 2] % 256 ELSE ws[i \div 2] \div 256])
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Shl(n, k) == X!ShiftLimbs(X!MulSmall(n, P2[(k % 8) + 1]), k \div 8)
Pow2(k) == Shl(X!One, k)
RECURSIVE MulPow5(_, _)
MulPow5(n, k) == IF k = 0 THEN n
                 ELSE IF k >= 9 THEN MulPow5(X!MulSmall(n, 1953125), k - 9)
                 ELSE MulPow5(X!MulSmall(n, 5), k - 1)

F(x) == BytesOf(x.f)
TopBit(x) == x.f[4] >= 32768
(* x, normalised or shifted, has the value n * 2^e *)
IsValue(x, n, e) == e - x.e \in 0 .. 64 /\ F(x) = Shl(n, e - x.e)
HighHalf(n) == IF Len(n) <= 8 THEN <<>> ELSE SubSeq(n, 9, Len(n))

SplitOK(e) ==
  LET be == (e.v[4] % 32768) \div 16
      m  == <<e.v[1], e.v[2], e.v[3], (e.v[4] % 16) + (IF be > 0 THEN 16 ELSE 0)>>
  IN be < 2047 => e.r.f = m /\ e.r.e = (IF be > 0 THEN be ELSE 1) - 1075

BoundsOK(e) ==
  LET n == F(e.a)
      low == IF n = Pow2(52) THEN <<X!Sub(Shl(n, 2), X!One), e.a.e - 2>> ELSE <<X!Sub(Shl(n, 1), X!One), e.a.e - 1>>
  IN n # <<>> => /\ IsValue(e.p, X!Add(Shl(n, 1), X!One), e.a.e - 1) /\ TopBit(e.p)
                 /\ IsValue(e.m, low[1], low[2]) /\ e.m.e = e.p.e

MulOK(e) == /\ e.r.e = e.a.e + e.b.e + 64
            /\ F(e.r) = HighHalf(X!Add(X!Mul(F(e.a), F(e.b)), Pow2(63)))

SubOK(e) == e.a.e = e.b.e /\ X!Leq(F(e.b), F(e.a)) => e.r.e = e.a.e /\ F(e.r) = X!Sub(F(e.a), F(e.b))

(* |f * 2^e - 10^n| <= 2^(e-1), both sides scaled to integers:              *)
(* 2 f 2^e against 2 * 5^n 2^n                                              *)
NearestPower(c, n) ==
  LET e  == c.e
      s  == (IF e < 0 THEN -e ELSE 0) + (IF n < 0 THEN -n ELSE 0)             \* common power of two
      lf == Shl(IF n < 0 THEN MulPow5(F(c), -n) ELSE F(c), s + e + 1)
      rt == Shl(IF n >= 0 THEN MulPow5(X!One, n) ELSE X!One, s + n + 1)
      un == Shl(IF n < 0 THEN MulPow5(X!One, -n) ELSE X!One, s + e)
  IN X!Leq(X!AbsDiff(lf, rt), un)
PowerOK(e) == /\ TopBit(e.r)
              /\ NearestPower(e.r, -e.k)
              /\ e.x + e.r.e + 64 \in -60 .. -32

CallOK(e) ==
  CASE e.o = "split"  -> SplitOK(e)
    [] e.o = "bounds" -> BoundsOK(e)
    [] e.o \in {"norm", "normb"} -> F(e.a) # <<>> => IsValue(e.r, F(e.a), e.a.e) /\ TopBit(e.r)
    [] e.o = "mul"    -> MulOK(e)
    [] e.o = "sub"    -> SubOK(e)
    [] e.o = "power"  -> PowerOK(e)
    [] e.o = "none"   -> TRUE
    [] OTHER -> FALSE
Explained == l <= Len(Sessions[sid]) /\ Ev.o # "fault" => CallOK(Ev)

TraceInit == sid \in 1 .. Len(Sessions) /\ l = 1
TCall == l <= Len(Sessions[sid]) /\ Ev.o # "fault" /\ l' = l + 1 /\ UNCHANGED sid
TEnd == l > Len(Sessions[sid]) /\ UNCHANGED tvars
TraceNext == TCall \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
