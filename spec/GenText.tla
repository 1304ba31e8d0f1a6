------------------------------ MODULE GenText -------------------------------
(***************************************************************************)
(* Every text up to length N over an alphabet that has one representative  *)
(* of each character class a lexer or encoder distinguishes, printed for   *)
(* replay into the real code.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Alphabet, N
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c)
Emit == PrintT("HIST " \o ToJson(s'))
=============================================================================
