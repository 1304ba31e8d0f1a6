---------------------------- MODULE MCDtoaBounds ----------------------------
(***************************************************************************)
(* Table indices and word sizes of the double formatter at full precision, *)
(* for every binary exponent a scaled boundary can have.                   *)
(*                                                                         *)
(* The formatter looks up 10^(-348 + 8 i) as a 64-bit float, i computed    *)
(* from the exponent x of the normalised upper boundary by                 *)
(*    i = (ceil((-61 - x) * 0.30102999566398114 + 347) >> 3) + 1.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
D == INSTANCE BigNat WITH B <- 10000
CONSTANTS XDown, XMax, TableSize, Power10Size
VARIABLE x
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE Double(_, _)
Double(n, k) == IF k = 0 THEN n ELSE Double(D!MulSmall(n, 2), k - 1)
Two60 == Double(D!One, 60)

RECURSIVE Shift10(_, _)
Shift10(n, k) == IF k = 0 THEN n ELSE Shift10(D!MulSmall(n, 10), k - 1)
C == D!FromDigits(<<3,0,1,0,2,9,9,9,5,6,6,3,9,8,1,1,4>>, 10)            \* times 10^-17
Base == Shift10(D!Of(347), 17)
Num == IF -61 - x >= 0 THEN D!Add(Base, D!MulSmall(C, -61 - x)) ELSE D!Sub(Base, D!MulSmall(C, x + 61))
(* ceiling of n / 10^17: 17 = 4 * 4 + 1 decimal places *)
Ceil(n) == LET limbs == IF Len(n) > 4 THEN SubSeq(n, 5, Len(n)) ELSE <<0>>
               whole == FoldRight(LAMBDA d, acc : acc * 10000 + d, limbs, 0)
               fracZero == (\A i \in 1 .. MinI(4, Len(n)) : n[i] = 0) /\ whole % 10 = 0
           IN (whole \div 10) + (IF fracZero THEN 0 ELSE 1)
Index == (Ceil(Num) \div 8) + 1

(* exponents of the 64-bit floats nearest below 10^j, j = -348 + 8 i: floor(log2 10^j) - 63. *)
(* Powers of two and of ten are compared while both grow.                                    *)
Step(a, j) ==        \* a = <<10^j, 2^b, b, acc>>, 10^j <= 2^b minimal; to j + 1: b grows by 3 or 4
  LET ten == D!MulSmall(a[1], 10)
      two == D!MulSmall(a[2], 8)
  IN IF D!Lt(two, ten) THEN <<ten, D!MulSmall(two, 2), a[3] + 4, Append(a[4], a[3] + 4)>>
     ELSE <<ten, two, a[3] + 3, Append(a[4], a[3] + 3)>>
CeilLog2 == FoldLeft(Step, <<D!One, D!One, 0, <<0>>>>, [i \in 1 .. 348 |-> i])[4]     \* CeilLog2[j + 1]: smallest b with 10^j <= 2^b
Log2Floor(j) == IF j > 0 THEN CeilLog2[j + 1] - 1 ELSE -CeilLog2[1 - j]
PowerE == [i \in 0 .. (TableSize - 1) |-> Log2Floor(8 * i - 348) - 63]

Init == x \in (-XDown) .. XMax
Next == UNCHANGED x
(* delta is at least 764 for normal values; the fraction loop ends at the latest when delta * 10^i >= 2^60 *)
Loops == CHOOSE i \in 0 .. 30 : /\ ~D!Lt(Shift10(D!Of(764), i), Two60)
                                /\ \A j \in 0 .. (i - 1) : D!Lt(Shift10(D!Of(764), j), Two60)
Inv == LET i == Index
       IN /\ i \in 0 .. (TableSize - 1)
          /\ x + PowerE[i] + 64 >= -60 /\ x + PowerE[i] + 64 <= -32            \* p1 fits 32 bits, p2 * 10 fits 64 bits
          /\ Loops < Power10Size
=============================================================================
