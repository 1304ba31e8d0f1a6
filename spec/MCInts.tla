------------------------------- MODULE MCInts -------------------------------
(***************************************************************************)
(* Integers as designed: reading undoes writing, writing is canonical, and *)
(* reading reduces modulo the width, for every 8- and 16-bit value and for *)
(* every combination of boundary words of the 32- and 64-bit types.        *)
(***************************************************************************)
EXTENDS Ints, Texts
CONSTANT Edge16            \* words combined into 32- and 64-bit patterns
VARIABLES t, v, leaf

(* a state is a block of values (leaf = FALSE) or one value; TLC expands the blocks in parallel *)
Init == /\ leaf = FALSE
        /\ \/ t \in {"i8", "u8"} /\ v = <<0>>
           \/ t \in {"i16", "u16"} /\ v \in {<<a>> : a \in 0 .. 255}
           \/ t \in {"i32", "u32", "i64", "u64"} /\ v \in {<<a>> : a \in Edge16}
Next == /\ ~leaf /\ leaf' = TRUE /\ UNCHANGED t
        /\ CASE t \in {"i8", "u8"} -> \E a \in 0 .. 255 : v' = <<a>>
             [] t \in {"i16", "u16"} -> \E a \in 0 .. 255 : v' = <<256 * v[1] + a>>
             [] t \in {"i32", "u32"} -> \E b \in Edge16 : v' = <<v[1], b>>
             [] OTHER -> \E b, c, d \in Edge16 : v' = <<v[1], b, c, d>>

RoundTrips(Text) == ReadInt(t, Text) = v
(* a numeral: optional minus, then 0 alone or no leading zero; at most 20 characters *)
CanonicalText(Text) ==
  LET m == IF Text[1] = MINUS THEN Tail(Text) ELSE Text
  IN /\ m # <<>> /\ \A i \in 1 .. Len(m) : IsDigit(m[i])
     /\ m[1] = D0 => m = <<D0>> /\ Text = m
     /\ Len(Text) <= 20 /\ JsonInteger(Text)
     /\ (Text[1] = MINUS) = IsNeg(t, v)
(* leading white space, plus sign, zeros, and any continuation change nothing *)
Lenient(Text) == LET body == IF Text[1] = MINUS THEN Tail(Text) ELSE Text
               sg == IF Text[1] = MINUS THEN <<MINUS>> ELSE <<PLUS>>
           IN ReadInt(t, <<32, 9>> \o sg \o <<D0, D0>> \o body \o <<46, 49>>) = v
(* reading as a narrower type keeps the low bits *)
Narrow(Text) == LET w == ReadInt("u8", Text)
          IN w = <<v[1] % 256>> /\ (Bytes_(t) >= 2 => ReadInt("i16", Text) = <<v[1]>>)
Inv == leaf => LET x == IntText(t, v) IN RoundTrips(x) /\ CanonicalText(x) /\ Lenient(x) /\ Narrow(x)
=============================================================================
