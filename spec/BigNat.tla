------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Exact natural-number arithmetic for TLC, whose own integers are 32 bit. *)
(*                                                                         *)
(* A natural number is a little-endian sequence of limbs in 0..B-1 with no *)
(* zero limb at the (most significant) end; zero is <<>>.                  *)
(*                                                                         *)
(* B is a constant: the decimal layers use B = 10000 (so that multiplying  *)
(* by a power of ten is a shift), the binary layers use B = 256.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT B
ASSUME B \in 2 .. 16384

Zero == <<>>
One  == <<1>>

IsBig(s) == /\ \A i \in 1 .. Len(s) : s[i] \in 0 .. (B - 1)
            /\ s = <<>> \/ s[Len(s)] # 0

(* Remove zero limbs from the most significant end. *)
RECURSIVE TrimAt(_, _)
TrimAt(s, n) == IF n = 0 THEN <<>>
                ELSE IF s[n] # 0 THEN (IF n = Len(s) THEN s ELSE SubSeq(s, 1, n))
                ELSE TrimAt(s, n - 1)
Trim(s) == TrimAt(s, Len(s))

(* A non-negative TLC integer as a BigNat. *)
RECURSIVE Of(_)
Of(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Of(n \div B)

(* Propagate carries over a sequence of (possibly out of range, possibly   *)
(* negative) coefficients whose overall value is known to be non-negative. *)
CarryRun(c, k) == FoldLeft(LAMBDA a, x : LET t == x + a[2]
                                        IN  <<Append(a[1], t % B), t \div B>>,
                          <<<<>>, k>>, c)
(* Long numbers in blocks of 64 limbs: appending costs the length so far.  *)
(* (c \o <<>> is a definite sequence, where c may be a function still to    *)
(* be evaluated; folding over a one-element sequence evaluates it once.)    *)
CarryBlocks(c) ==
  LET Block(a, i) == CarryRun(SubSeq(c, 64 * i - 63, IF 64 * i < Len(c) THEN 64 * i ELSE Len(c)), a[2])
  IN FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, r : <<b[1] \o r[1], r[2]>>, a, <<Block(a, i)>>),
              <<<<>>, 0>>, [i \in 1 .. ((Len(c) + 63) \div 64) |-> i])
CarryAll(c) == IF Len(c) > 100 THEN CarryBlocks(c) ELSE CarryRun(c, 0)
Carry(c) == LET Finish(x, r) == Trim(r[1] \o Of(r[2]))
            IN FoldLeft(Finish, 0, FoldLeft(LAMBDA x, cc : <<CarryAll(cc)>>, 0, <<c \o <<>>>>))

At(s, i) == IF i \in 1 .. Len(s) THEN s[i] ELSE 0

MaxInt(a, b) == IF a >= b THEN a ELSE b
MinInt(a, b) == IF a <= b THEN a ELSE b

(* -1, 0 or 1 *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, n) == IF n = 0 THEN 0
                  ELSE IF a[n] # b[n] THEN (IF a[n] < b[n] THEN -1 ELSE 1)
                  ELSE CmpAt(a, b, n - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
             ELSE CmpAt(a, b, Len(a))
Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b)  == Cmp(a, b) < 0

Add(a, b) ==
  LET la == Len(a)  lb == Len(b)
      m  == MinInt(la, lb)
  IN Carry([i \in 1 .. MaxInt(la, lb) |->
              IF i <= m THEN a[i] + b[i]
              ELSE IF i <= la THEN a[i] ELSE b[i]])

(* a - b, for a >= b *)
Sub(a, b) ==
  LET lb == Len(b)
  IN Carry([i \in 1 .. Len(a) |-> IF i <= lb THEN a[i] - b[i] ELSE a[i]])

AbsDiff(a, b) == IF Leq(b, a) THEN Sub(a, b) ELSE Sub(b, a)

(* k is a TLC integer with k * B < 2^31 *)
MulSmall(a, k) == IF k = 0 THEN <<>> ELSE Carry([i \in 1 .. Len(a) |-> a[i] * k])

(* a * b; the shorter operand must have at most 20 limbs (no overflow: each *)
(* coefficient is a sum of that many products below 10^8, plus a carry).    *)
MulShort(a, b) ==
  LET la == Len(a)  lb == Len(b)
      RECURSIVE Coef(_, _, _)
      Coef(k, j, acc) ==      \* sum over j of a[j] * b[k+1-j]
        IF j > la \/ j > k THEN acc
        ELSE Coef(k, j + 1, IF k + 1 - j <= lb THEN acc + a[j] * b[k + 1 - j] ELSE acc)
  IN IF la = 0 \/ lb = 0 THEN <<>>
     ELSE Carry([k \in 1 .. (la + lb - 1) |-> Coef(k, 1, 0)])
Mul(a, b) == IF Len(a) <= Len(b) THEN MulShort(a, b) ELSE MulShort(b, a)

(* Multiply by B^n. *)
ShiftLimbs(a, n) == IF a = <<>> \/ n = 0 THEN a ELSE [i \in 1 .. n |-> 0] \o a

(* Most-significant-first sequence of base-b digits to a number (b * B < 2^31). *)
FromDigits(ds, b) == FoldLeft(LAMBDA acc, d :
                       Carry(IF acc = <<>> THEN <<d>>
                             ELSE [i \in 1 .. Len(acc) |-> IF i = 1 THEN acc[1] * b + d ELSE acc[i] * b]),
                       <<>>, ds)

(* Little-endian 16-bit words (as logged by the driver) to a number. *)
FromWords(ws) == FromDigits(Reverse(ws), 65536)

IsEven(a) == a = <<>> \/ a[1] % 2 = 0      \* B is even in every instance used
=============================================================================
