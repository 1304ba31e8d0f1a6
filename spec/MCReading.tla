------------------------------ MODULE MCReading -----------------------------
(***************************************************************************)
(* Correct rounding is a function: for the exact value of a float, the     *)
(* midpoint to its upper neighbour, and points just beside the midpoint,   *)
(* exactly one of the neighbouring floats is an allowed result, and it is  *)
(* the one nearest-even demands.                                           *)
(***************************************************************************)
EXTENDS Floats
I == INSTANCE Ints
VARIABLES t, x, where        \* where: "" until chosen

(* consecutive positive patterns, as words *)
Succ(w) == LET RECURSIVE Inc(_, _)
               Inc(s, i) == IF s[i] < 65535 THEN [s EXCEPT ![i] = s[i] + 1] ELSE Inc([s EXCEPT ![i] = 0], i + 1)
           IN Inc(w, 1)
Samples == {<<"f32", <<a, b>>>> : a \in {0, 1, 2, 32767, 65534, 65535}, b \in {0, 1, 127, 128, 129, 255, 256, 16256, 16255, 16383, 32512, 32638, 32639}}
      \cup {<<"f64", <<a, b, 0, d>>>> : a \in {0, 1, 65534, 65535}, b \in {0, 65535}, d \in {0, 1, 15, 16, 31, 32, 16368, 16383, 32736, 32751}}
Init == \E p \in Samples : t = p[1] /\ x = p[2] /\ where = ""
Next == where = "" /\ where' \in {"exact", "mid", "above", "below"} /\ UNCHANGED <<t, x>>

Two(n) == [i \in 1 .. Len(n) |-> n[i]]
(* the number (2m + h) * 2^(e-1) as digits and exponent: h = 0 the value, 1 the midpoint *)
Half(f, h) == Dyadic(I!D!Add(I!D!MulSmall(f.m, 2), IF h = 1 THEN <<1>> ELSE <<>>), f.e - 1)
DigitsOf(n) == I!Digits(n.b)
Point(f) == Half(f, IF where = "exact" THEN 0 ELSE 1)
(* the text: all digits, one more digit to move beside the midpoint, and an exponent *)
Text(pt) == LET ds == DigitsOf(pt)
                q == -4 * pt.s
                c == [i \in 1 .. Len(ds) |-> ds[i] + 48]
                \* below: digits(b*10000 - 1)
                lowd == I!Digits(I!D!Sub(I!D!ShiftLimbs(pt.b, 1), <<1>>))
                lc == [i \in 1 .. Len(lowd) |-> lowd[i] + 48]
            IN CASE where \in {"exact", "mid"} -> c \o <<LOWE>> \o ExpText(q)
                 [] where = "above" -> c \o <<49, LOWE>> \o ExpText(q - 1)
                 [] OTHER -> lc \o <<LOWE>> \o ExpText(q - 4)
Nb == LET s == Succ(x) IN {x, s, Succ(s)} \cup {MaxFinite(t)}
Expected == CASE where \in {"exact", "below"} -> x
              [] where = "above" -> Succ(x)
              [] OTHER -> IF x[1] % 2 = 0 THEN x ELSE Succ(x)
Inv == (where # "" /\ IsFinite(t, x)) =>
         LET pt == Point(Decode(t, x))
             s == Text(pt)
         IN (where = "below" /\ pt.b = <<>>) \/
            \A y \in Nb : (IF y = Expected THEN CorrectlyRead(t, s, y) ELSE ~CorrectlyRead(t, s, y))
=============================================================================