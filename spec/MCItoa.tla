------------------------------- MODULE MCItoa -------------------------------
(***************************************************************************)
(* The digit-pair cascade of the integer formatter, in radix R instead of  *)
(* ten: chunks of two, four, eight and sixteen digits, emission guarded by *)
(* comparisons with powers of the radix.  Exhaustive over all values below *)
(* Max; in radix ten the structure (not the constants) is the same.        *)
(* The output position never exceeds the buffer.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS R, Max, W      \* W: 32 or 64, the variant
VARIABLES x

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE R * Pow(k - 1)
R2 == Pow(2)  R3 == Pow(3)  R4 == Pow(4)  R8 == Pow(8)
R5 == Pow(5)  R6 == Pow(6)  R7 == Pow(7)

Hi(d) == d \div R      Lo(d) == d % R        \* the two digits of a pair
Pair(d) == <<Hi(d), Lo(d)>>
If(c, s) == IF c THEN s ELSE <<>>

Small(v) == LET d1 == v \div R2  d2 == v % R2
            IN If(v >= R3, <<Hi(d1)>>) \o If(v >= R2, <<Lo(d1)>>) \o If(v >= R, <<Hi(d2)>>) \o <<Lo(d2)>>
Four(c) == Pair(c \div R2) \o Pair(c % R2)
Medium(v) == LET b == v \div R4  c == v % R4
                 d1 == b \div R2  d2 == b % R2
             IN If(v >= R7, <<Hi(d1)>>) \o If(v >= R6, <<Lo(d1)>>) \o If(v >= R5, <<Hi(d2)>>) \o <<Lo(d2)>> \o Four(c)
Eight(v) == Four(v \div R4) \o Four(v % R4)

U32(v) == IF v < R4 THEN Small(v)
          ELSE IF v < R8 THEN Medium(v)
          ELSE LET a == v \div R8
               IN (IF a >= R THEN Pair(a) ELSE <<a>>) \o Eight(v % R8)

R16 == R8 * R8
Wide(v) == LET v0 == v \div R8  v1 == v % R8
               b0 == v0 \div R4  c0 == v0 % R4
               d1 == b0 \div R2  d2 == b0 % R2  d3 == c0 \div R2  d4 == c0 % R2
           IN If(v >= R8 * R7, <<Hi(d1)>>) \o If(v >= R8 * R6, <<Lo(d1)>>) \o If(v >= R8 * R5, <<Hi(d2)>>)
              \o If(v >= R8 * R4, <<Lo(d2)>>) \o If(v >= R8 * R3, <<Hi(d3)>>) \o If(v >= R8 * R2, <<Lo(d3)>>)
              \o If(v >= R8 * R, <<Hi(d4)>>) \o If(v >= R8, <<Lo(d4)>>) \o Eight(v1)
U64(v) == IF v < R4 THEN Small(v)
          ELSE IF v < R8 THEN Medium(v)
          ELSE IF v < R16 THEN Wide(v)
          ELSE LET a == v \div R16
                   w == v % R16
               IN (IF a < R THEN <<a>> ELSE IF a < R2 THEN Pair(a)
                   ELSE IF a < R3 THEN <<a \div R2>> \o Pair(a % R2) ELSE Pair(a \div R2) \o Pair(a % R2))
                  \o Eight(w \div R8) \o Eight(w % R8)

RECURSIVE Numeral(_)
Numeral(v) == IF v < R THEN <<v>> ELSE Append(Numeral(v \div R), v % R)

Init == x \in 0 .. (Max - 1)
Next == UNCHANGED x
Exact == LET o == IF W = 32 THEN U32(x) ELSE U64(x)
         IN o = Numeral(x) /\ Len(o) <= (IF W = 32 THEN 10 ELSE 20)
=============================================================================
