-------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* The two byte-wise encodings, and the literal words.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bytes

(* ---- escape: one backslash before every ASCII non-alphanumeric byte --- *)
EscapeByte(c) == IF IsAscii(c) /\ ~IsAlnum(c) THEN <<BSLASH, c>> ELSE <<c>>
Escape(s) == FoldLeft(LAMBDA acc, c : acc \o EscapeByte(c), <<>>, s)

(* r is the escaped form of s: one walk along both. *)
EscStep(r, i, c) == IF i = 0 THEN 0
                    ELSE IF IsAscii(c) /\ ~IsAlnum(c)
                         THEN (IF Chr(r, i) = BSLASH /\ Chr(r, i + 1) = c THEN i + 2 ELSE 0)
                    ELSE IF Chr(r, i) = c THEN i + 1 ELSE 0
EscapeRel(s, r) == FoldLeft(LAMBDA i, c : EscStep(r, i, c), 1, s) = Len(r) + 1

(* The inverse: drop each inserted backslash. *)
RECURSIVE UnescapeAt(_, _)
UnescapeAt(s, i) == IF i > Len(s) THEN <<>>
                    ELSE IF s[i] = BSLASH /\ i < Len(s) THEN <<s[i + 1]>> \o UnescapeAt(s, i + 2)
                    ELSE <<s[i]>> \o UnescapeAt(s, i + 1)
Unescape(s) == UnescapeAt(s, 1)

(* ---- JSON ------------------------------------------------------------- *)
MustEscape(c) == c = DQUOTE \/ c = BSLASH \/ IsControl(c)

ShortEscape(c) ==     \* the byte that <backslash, c> stands for, or -1
  CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
    [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

(* One decoding step at index i of the body of a literal: the byte, the    *)
(* index after it, and whether it was written as an escape; byte -1 = bad. *)
DecodeStep(b, i) ==
  LET c == b[i]
  IN IF c = DQUOTE \/ IsControl(c) THEN [c |-> -1, n |-> i + 1, e |-> FALSE]
     ELSE IF c # BSLASH THEN [c |-> c, n |-> i + 1, e |-> FALSE]
     ELSE IF Chr(b, i + 1) = 117 THEN        \* \u00XX (code points below 128)
            LET h == [k \in 1 .. 4 |-> LET x == Chr(b, i + 1 + k) IN IF x = EOT THEN -1 ELSE HexVal(x)]
            IN IF h[1] = 0 /\ h[2] = 0 /\ h[3] >= 0 /\ h[3] <= 7 /\ h[4] >= 0
               THEN [c |-> 16 * h[3] + h[4], n |-> i + 6, e |-> TRUE]
               ELSE [c |-> -1, n |-> i + 6, e |-> TRUE]
     ELSE [c |-> IF Chr(b, i + 1) = EOT THEN -1 ELSE ShortEscape(Chr(b, i + 1)), n |-> i + 2, e |-> TRUE]

(* r is a JSON form of s: one walk along the body of the literal, decoding *)
(* it to the bytes of s in turn, escapes only where they must be.          *)
JsonStep(r, i, c) == IF i = 0 \/ i >= Len(r) THEN 0
                     ELSE LET st == DecodeStep(r, i)
                          IN IF st.c = c /\ (st.e => MustEscape(c)) THEN st.n ELSE 0
JsonRel(s, r) == /\ Len(r) >= 2 /\ r[1] = DQUOTE /\ r[Len(r)] = DQUOTE
                 /\ FoldLeft(LAMBDA i, c : JsonStep(r, i, c), 2, s) = Len(r)

(* A JSON number (RFC 8259): -? (0 | [1-9][0-9]* ) (. [0-9]+)? ([eE] [+-]? [0-9]+)?  *)
(* State of a walk along the text: 0 start, 1 after '-', 2 after a leading  *)
(* 0, 3 integer digits, 4 after '.', 5 fraction digits, 6 after e, 7 after  *)
(* the exponent's sign, 8 exponent digits, 9 refused.                       *)
JsonNumberStep(q, c) ==
  CASE q = 0 /\ c = 45 -> 1
    [] q \in {0, 1} /\ c = 48 -> 2
    [] q \in {0, 1} /\ IsDigit(c) -> 3
    [] q = 3 /\ IsDigit(c) -> 3
    [] q \in {2, 3} /\ c = DOT -> 4
    [] q \in {4, 5} /\ IsDigit(c) -> 5
    [] q \in {2, 3, 5} /\ c \in {69, 101} -> 6
    [] q = 6 /\ c \in {43, 45} -> 7
    [] q \in {6, 7, 8} /\ IsDigit(c) -> 8
    [] OTHER -> 9
JsonNumber(r) == FoldLeft(JsonNumberStep, 0, r) \in {2, 3, 5, 8}
JsonInteger(r) == FoldLeft(JsonNumberStep, 0, r) \in {2, 3}

(* The canonical encoder (the design); any other encoder satisfying        *)
(* JsonRel is accepted from the implementation.                            *)
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
JsonByte(c) ==
  CASE c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
    [] c = 9 -> <<92, 116>> [] c = 92 -> <<92, 92>> [] c = 34 -> <<92, 34>>
    [] IsControl(c) -> <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER -> <<c>>
Jsonify(s) == <<DQUOTE>> \o FoldLeft(LAMBDA acc, c : acc \o JsonByte(c), <<>>, s) \o <<DQUOTE>>

(* ---- literal words (defaults; a build may configure others) ----------- *)
DefaultWords == [null |-> <<110, 117, 108, 108>>, true |-> <<116, 114, 117, 101>>,
                 false |-> <<102, 97, 108, 115, 101>>, nan |-> <<78, 97, 78>>,
                 inf |-> <<73, 110, 102, 105, 110, 105, 116, 121>>,
                 ninf |-> <<45, 73, 110, 102, 105, 110, 105, 116, 121>>]
=============================================================================
