-------------------------------- MODULE MCBig -------------------------------
(***************************************************************************)
(* The big-integer algorithms with words of radix R (instead of 2^64) and  *)
(* capacity Cap, exhaustively: carries, borrows, shifts by whole words and *)
(* bits, and the refusal of results that do not fit.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Bits, Cap                  \* R = 2^Bits
R == 2 ^ Bits
VARIABLES x, y, op

RECURSIVE WordsOf(_)
WordsOf(n) == IF n < R THEN <<n>> ELSE <<n % R>> \o WordsOf(n \div R)
ValueOf(w) == FoldRight(LAMBDA d, acc : acc * R + d, w, 0)
Canonical(w) == Len(w) >= 1 /\ (Len(w) > 1 => w[Len(w)] # 0)
Overflow == <<-1>>
Push(w, d) == IF Len(w) < Cap THEN Append(w, d) ELSE Overflow

(* add a word: wrap-around detects the carry *)
RECURSIVE AddFrom(_, _, _)
AddFrom(w, i, backup) ==
  IF i < Len(w)
  THEN IF w[i] >= backup THEN w
       ELSE AddFrom([w EXCEPT ![i + 1] = (w[i + 1] + 1) % R], i + 1, w[i + 1])
  ELSE IF w[i] < backup THEN Push(w, 1) ELSE w
AddW(w, k) == AddFrom([w EXCEPT ![1] = (w[1] + k) % R], 1, w[1])

(* multiply by a word *)
MulW(w, k) ==
  IF k = 0 THEN <<0>> ELSE IF k = 1 THEN w ELSE IF w = <<1>> THEN <<k>>
  ELSE LET r == FoldLeft(LAMBDA a, d : LET p == d * k + a[2] IN <<Append(a[1], p % R), p \div R>>, <<<<>>, 0>>, w)
       IN IF r[2] > 0 THEN Push(r[1], r[2]) ELSE r[1]

Shl(w, s) ==
  IF w = <<0>> \/ s = 0 THEN w
  ELSE LET off == s \div Bits
           in == s % Bits
           hi == IF in = 0 THEN 0 ELSE w[Len(w)] \div 2 ^ (Bits - in)
           n == Len(w) + off + (IF hi > 0 THEN 1 ELSE 0)
           Lo(i) == IF i >= 1 /\ in > 0 THEN w[i] \div 2 ^ (Bits - in) ELSE 0
       IN IF n > Cap THEN Overflow
          ELSE [i \in 1 .. n |-> IF i <= off THEN 0
                                 ELSE IF i > Len(w) + off THEN hi
                                 ELSE ((w[i - off] * 2 ^ in) % R) + Lo(i - off - 1)]

Compare(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                 ELSE LET d == {i \in 1 .. Len(a) : a[i] # b[i]}
                      IN IF d = {} THEN 0
                         ELSE LET t == CHOOSE i \in d : \A j \in d : j <= i IN IF a[t] < b[t] THEN -1 ELSE 1
Diff(a, b) ==       \* a > b
  LET r == FoldLeft(LAMBDA acc, i :
             LET u == a[i]  v == IF i <= Len(b) THEN b[i] ELSE 0
                 bo == acc[2]
             IN <<Append(acc[1], (u - v - bo) % R), IF u < v \/ (u = v /\ bo = 1) THEN 1 ELSE 0>>,
             <<<<>>, 0>>, [i \in 1 .. Len(a) |-> i])
      nz == {i \in 1 .. Len(a) : r[1][i] # 0}
      n == IF nz = {} THEN 1 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
  IN SubSeq(r[1], 1, n)

Limit == R ^ Cap
Init == /\ x \in 0 .. (Limit - 1)
        /\ \/ op \in {"add", "mul"} /\ y \in 0 .. (R - 1)
           \/ op = "shl" /\ y \in 0 .. (Bits * Cap)
           \/ op = "diff" /\ y \in 0 .. (Limit - 1)
Next == UNCHANGED <<x, y, op>>
Is(w, n) == IF n >= Limit THEN w = Overflow ELSE Canonical(w) /\ ValueOf(w) = n
Abs(n) == IF n < 0 THEN -n ELSE n
Inv == CASE op = "add" -> Is(AddW(WordsOf(x), y), x + y)
         [] op = "mul" -> Is(MulW(WordsOf(x), y), x * y)
         [] op = "shl" -> Is(Shl(WordsOf(x), y), x * 2 ^ y)
         [] OTHER -> LET c == Compare(WordsOf(x), WordsOf(y))
                     IN /\ c = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
                        /\ x # y => Is(IF c > 0 THEN Diff(WordsOf(x), WordsOf(y)) ELSE Diff(WordsOf(y), WordsOf(x)), Abs(x - y))
=============================================================================
