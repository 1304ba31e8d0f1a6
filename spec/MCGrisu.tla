------------------------------- MODULE MCGrisu ------------------------------
(***************************************************************************)
(* The digit-generation algorithm of the double formatter (Grisu2), one    *)
(* digit per step, at reduced precision: P-bit significands instead of 53, *)
(* Q-bit working precision instead of 64.  All arithmetic is exact, so TLC *)
(* decides for every significand and exponent of the small format that the *)
(* digits identify the value (C04), are shortest and closest up to the     *)
(* working precision (C05), that the last digit is not zero (C06), and     *)
(* that no intermediate overflows its word or table (C14).                 *)
(***************************************************************************)
EXTENDS Floats
CONSTANTS P, Q, EDown, EMax, KDown, KMax, Inner, Slack, Slip
VARIABLES m, e, mk, pc, W, Mp, delta, sh, p1, p2, kappa, ds, rest, unit, wpw, k
EMin == -EDown
KMin == -KDown
vars == <<m, e, mk, pc, W, Mp, delta, sh, p1, p2, kappa, ds, rest, unit, wpw, k>>

RECURSIVE Norm(_, _)                       \* shift left until bit Q-1 is set
Norm(f, x) == IF f >= 2 ^ (Q - 1) THEN <<f, x>> ELSE Norm(2 * f, x - 1)

(* 10^j as <<f, x>>: f * 2^x, f of Q bits, rounded to nearest *)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Cached(j) ==
  IF j >= 0
  THEN LET n == 10 ^ j
           b == Bits(n)
       IN IF b <= Q THEN <<n * 2 ^ (Q - b), b - Q>>
          ELSE LET r == (n + 2 ^ (b - Q - 1)) \div 2 ^ (b - Q)
               IN IF r = 2 ^ Q THEN <<2 ^ (Q - 1), b - Q + 1>> ELSE <<r, b - Q>>
  ELSE LET n == 10 ^ (-j)
           s == Q + Bits(n) - 1                                 \* 2^s / n in (2^(Q-1), 2^Q)
           r == (2 ^ s + (n \div 2)) \div n
       IN IF r = 2 ^ Q THEN <<2 ^ (Q - 1), 1 - s>> ELSE <<r, -s>>
Table == [j \in KMin .. KMax |-> Cached(j)]

(* the product of two Q-bit numbers, upper half, rounded *)
MulF(a, b) == (a * b + 2 ^ (Q - 1)) \div 2 ^ Q
Alpha == -(Q - 4)
Gamma == Alpha + 4

Hidden == 2 ^ (P - 1)
Plus == Norm(2 * m + 1, e - 1)
Minus == LET mi == IF m = Hidden THEN <<4 * m - 1, e - 2>> ELSE <<2 * m - 1, e - 1>>
         IN mi[1] * 2 ^ (mi[2] - Plus[2])

Init ==
  /\ \/ m \in Hidden .. (2 * Hidden - 1) /\ e \in EMin .. EMax
     \/ m \in 1 .. (Hidden - 1) /\ e = EMin
  /\ mk \in KMin .. KMax
  /\ LET c == Table[mk]
         x == Plus[2] + c[2] + Q
     IN x >= Alpha /\ x <= Gamma
  /\ pc = "scale" /\ W = 0 /\ Mp = 0 /\ delta = 0 /\ sh = 0 /\ p1 = 0 /\ p2 = 0 /\ kappa = 0
  /\ ds = <<>> /\ rest = 0 /\ unit = 0 /\ wpw = 0 /\ k = 0

RECURSIVE Count(_)
Count(n) == IF n < 10 THEN 1 ELSE 1 + Count(n \div 10)

Scale ==
  /\ pc = "scale"
  /\ LET c == Table[mk]
         w == MulF(Norm(m, e)[1], c[1])
         hi == MulF(Plus[1], c[1]) - (1 - Slip)          \* Slip = 1: a planted slip, for the negative control
         lo == MulF(Minus, c[1]) + 1
         s == -(Plus[2] + c[2] + Q)
     IN /\ W' = w /\ Mp' = hi /\ delta' = hi - lo /\ sh' = s
        /\ p1' = hi \div 2 ^ s /\ p2' = hi % 2 ^ s
        /\ kappa' = Count(hi \div 2 ^ s) /\ wpw' = hi - w
  /\ k' = -mk /\ pc' = "int"
  /\ UNCHANGED <<m, e, mk, ds, rest, unit>>

Push(d) == IF d # 0 \/ ds # <<>> THEN Append(ds, d) ELSE ds
IntDigit ==
  /\ pc = "int" /\ kappa > 0
  /\ LET t == 10 ^ (kappa - 1)
         r == (p1 % t) * 2 ^ sh + p2
     IN /\ ds' = Push(p1 \div t) /\ p1' = p1 % t /\ kappa' = kappa - 1
        /\ IF r <= delta
           THEN k' = k + kappa - 1 /\ rest' = r /\ unit' = t * 2 ^ sh /\ pc' = "round"
           ELSE UNCHANGED <<k, rest, unit, pc>>
  /\ UNCHANGED <<m, e, mk, W, Mp, delta, sh, p2, wpw>>
FracDigit ==
  /\ pc = "int" /\ kappa <= 0
  /\ LET q == p2 * 10
         r == q % 2 ^ sh
     IN /\ ds' = Push(q \div 2 ^ sh) /\ p2' = r /\ delta' = delta * 10 /\ kappa' = kappa - 1
        /\ wpw' = wpw * 10
        /\ IF r < delta * 10
           THEN k' = k + kappa - 1 /\ rest' = r /\ unit' = 2 ^ sh /\ pc' = "round"
           ELSE UNCHANGED <<k, rest, unit, pc>>
  /\ UNCHANGED <<m, e, mk, W, Mp, sh, p1>>
CanDecrement == /\ rest < wpw /\ delta - rest >= unit
                /\ (rest + unit < wpw \/ wpw - rest > rest + unit - wpw)
Round ==
  /\ pc = "round"
  /\ IF CanDecrement
     THEN ds' = [ds EXCEPT ![Len(ds)] = @ - 1] /\ rest' = rest + unit /\ UNCHANGED pc
     ELSE pc' = "done" /\ UNCHANGED <<ds, rest>>
  /\ UNCHANGED <<m, e, mk, W, Mp, delta, sh, p1, p2, kappa, unit, wpw, k>>
Done == pc = "done" /\ UNCHANGED vars
Next == Scale \/ IntDigit \/ FracDigit \/ Round \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")

F == [m |-> OfInt(m), e |-> e, odd |-> m % 2 = 1, frac0 |-> m = Hidden, be |-> IF e > EMin THEN 2 ELSE 1, neg |-> FALSE]
L == [ds |-> ds, q |-> k]
Fits == /\ pc # "scale" => p2 * 10 < 2 ^ Q /\ delta < 10 * 2 ^ Q /\ rest >= 0
        /\ pc = "round" => rest <= delta                       \* the unsigned subtraction does not wrap
        /\ \A i \in 1 .. Len(ds) : ds[i] \in 0 .. 9
        /\ Len(ds) <= P                                         \* far below the buffer
Identifying == pc = "done" => RoundsTo(F, FrameOfDec(F, ds, k))
NoTrailingZero == pc = "done" => ds # <<>> /\ ds[1] # 0 /\ ds[Len(ds)] # 0
ShortestDigits == pc = "done" => ShortestBy(F, L, Inner, Slack)
=============================================================================
