------------------------------- MODULE Bytes -------------------------------
(* Texts are sequences of bytes (0..255).                                  *)
EXTENDS Integers, Sequences, SequencesExt

Byte == 0 .. 255

NUL == 0      DQUOTE == 34   PLUS == 43    MINUS == 45   DOT == 46
D0 == 48      D9 == 57       BSLASH == 92  LOWE == 101   UPE == 69

IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c) == IsDigit(c) \/ IsLetter(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsAscii(c) == c < 128
IsControl(c) == c < 32
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1

(* Byte i of s, or 256 ("end of text") past the end: no byte equals it. *)
EOT == 256
Chr(s, i) == IF i <= Len(s) THEN s[i] ELSE EOT

(* First index >= i whose byte does not satisfy P (no recursion: texts may be long). *)
SkipWhile(P(_), s, i) ==
  IF i > Len(s) \/ ~P(s[i]) THEN i
  ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : ~P(c))
       IN IF k = 0 THEN Len(s) + 1 ELSE i + k - 1
IsZeroChar(c) == c = 48
SkipDigits(s, i) == SkipWhile(IsDigit, s, i)
SkipSpace(s, i) == SkipWhile(IsSpace, s, i)
SkipZeros(s, i) == SkipWhile(IsZeroChar, s, i)
(* Last index <= i whose byte is not '0' (0 if none). *)
LastNonZero(s, i) == IF i = 0 \/ s[i] # 48 THEN i
                     ELSE SelectLastInSeq(SubSeq(s, 1, i), LAMBDA c : c # 48)

(* Digit characters to digit values and back. *)
DigitVals(s) == [i \in 1 .. Len(s) |-> s[i] - 48]
Rep(c, n) == [i \in 1 .. n |-> c]

(* Does lower-cased s, from index i on, start with word w? *)
HasWordAt(s, i, w) == /\ i + Len(w) - 1 <= Len(s)
                      /\ \A k \in 1 .. Len(w) : Lower(s[i + k - 1]) = w[k]
=============================================================================
