------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* The layout of a double as an in-place rewriting of the digit buffer     *)
(* (moves and stores with an explicit buffer of FloatSize bytes), against  *)
(* the canonical layout and the lexer, for every digit count, every        *)
(* decimal exponent a double can have, and both signs.                     *)
(***************************************************************************)
EXTENDS Floats, Texts
CONSTANTS FloatSize, EDown, EMax
EMin == -EDown
VARIABLES neg, ds, E

DigitSets == {[i \in 1 .. n |-> IF i = 1 THEN a ELSE IF i = n THEN b ELSE (i % 10)] : n \in 1 .. 18, a \in {1, 9}, b \in {1, 9}}
Init == neg \in BOOLEAN /\ ds \in DigitSets /\ E \in EMin .. EMax
Next == UNCHANGED <<neg, ds, E>>

(* buffers are functions on 0 .. FloatSize-1; -1 = never written *)
Dom == 0 .. (FloatSize - 1)
Put(b, i, c) == [b EXCEPT ![i] = c]                        \* TLC raises an error out of bounds
MoveBytes(b, to, from, n) == [i \in Dom |-> IF i >= to /\ i < to + n THEN b[from + i - to] ELSE b[i]]
InBounds(i) == i \in Dom
RECURSIVE Fill(_, _, _)
Fill(b, i, j) == IF i >= j THEN b ELSE Fill(Put(b, i, 48), i + 1, j)
RECURSIVE PutAll(_, _, _)
PutAll(b, i, t) == IF t = <<>> THEN b ELSE PutAll(Put(b, i, Head(t)), i + 1, Tail(t))

(* -> <<buffer, end>>; o is where the digits start (1 after a minus sign) *)
Prettify(b, o, len, k) ==
  LET kk == len + k
  IN IF len <= kk /\ kk <= 21
       THEN LET b1 == Fill(b, o + len, o + kk)
            IN <<Put(Put(Put(b1, o + kk, 46), o + kk + 1, 48), o + kk + 2, 0), o + kk + 2>>
     ELSE IF 0 < kk /\ kk <= 21
       THEN LET b1 == MoveBytes(b, o + kk + 1, o + kk, len - kk)
            IN <<Put(Put(b1, o + kk, 46), o + len + 1, 0), o + len + 1>>
     ELSE IF -6 < kk /\ kk <= 0
       THEN LET off == 2 - kk
                b1 == MoveBytes(b, o + off, o, len)
            IN <<Put(Fill(Put(Put(b1, o, 48), o + 1, 46), o + 2, o + off), o + len + off, 0), o + len + off>>
     ELSE LET x == ExpText(kk - 1)
          IN IF len = 1
               THEN <<Put(PutAll(Put(b, o + 1, 101), o + 2, x), o + 2 + Len(x), 0), o + 2 + Len(x)>>
               ELSE LET b1 == Put(MoveBytes(b, o + 2, o + 1, len - 1), o + 1, 46)
                    IN <<Put(PutAll(Put(b1, o + len + 1, 101), o + len + 2, x), o + len + 2 + Len(x), 0), o + len + 2 + Len(x)>>

Start == LET b0 == [i \in Dom |-> -1]
             b1 == IF neg THEN Put(b0, 0, MINUS) ELSE b0
         IN PutAll(b1, IF neg THEN 1 ELSE 0, [i \in 1 .. Len(ds) |-> ds[i] + 48])
Inv ==
  LET r == Prettify(Start, IF neg THEN 1 ELSE 0, Len(ds), E - Len(ds))
      t == Layout(neg, ds, E)
      l == LexFloat(t)
  IN /\ InBounds(r[2]) /\ r[1][r[2]] = 0                              \* terminated inside the buffer
     /\ r[2] = Len(t) /\ \A i \in 1 .. Len(t) : r[1][i - 1] = t[i]    \* the algorithm writes the layout
     /\ IsDecimal(t, l) /\ l.neg = neg /\ l.ds = ds /\ DecExp(l) = E  \* and it is read back as the same decimal
     /\ JsonNumber(t)                                                 \* it is a JSON number
=============================================================================
