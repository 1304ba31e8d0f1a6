------------------------------- MODULE MCTexts ------------------------------
(***************************************************************************)
(* The encodings as designed, for every text up to length N over the       *)
(* character classes, and for every single byte and pair with a class.     *)
(***************************************************************************)
EXTENDS Texts
CONSTANTS Alphabet, N
VARIABLE s
Init == s = <<>> \/ s \in {<<a>> : a \in 0 .. 255}
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c)

EscapeOK == LET e == Escape(s)
            IN /\ Unescape(e) = s
               /\ EscapeRel(s, e)
               /\ \A c \in Alphabet : ~EscapeRel(Append(s, c), e) /\ ~EscapeRel(s, Append(e, c))
               /\ \A i \in 1 .. Len(e), c \in Alphabet : c # e[i] => ~EscapeRel(s, [e EXCEPT ![i] = c])
               /\ Len(e) <= 2 * Len(s)
               /\ \A i \in 1 .. Len(e) : (IsAscii(e[i]) /\ ~IsAlnum(e[i]) /\ e[i] # BSLASH) => (i > 1 /\ e[i - 1] = BSLASH)
JsonOK == /\ JsonRel(s, Jsonify(s))
          /\ Len(Jsonify(s)) <= 6 * Len(s) + 2
          \* the form determines the text: no neighbouring text has it
          /\ \A c \in Alphabet : ~JsonRel(Append(s, c), Jsonify(s))
          /\ s # <<>> => ~JsonRel(SubSeq(s, 1, Len(s) - 1), Jsonify(s))
          /\ \A i \in 1 .. Len(s), c \in Alphabet : c # s[i] => ~JsonRel([s EXCEPT ![i] = c], Jsonify(s))
Inv == EscapeOK /\ JsonOK
=============================================================================
