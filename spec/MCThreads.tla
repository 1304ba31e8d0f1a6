------------------------------ MODULE MCThreads -----------------------------
(***************************************************************************)
(* Conversions on several threads, one store at a time.  A conversion      *)
(* writes the digits of its value, last digit first, into a scratch buffer *)
(* and then returns what the buffer holds.  Where the buffer is Private to *)
(* the call, every interleaving returns the numeral; where it is shared    *)
(* (static), TLC finds an interleaving that does not.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Values, Private
VARIABLES pc, n, buf, len, arg, res
vars == <<pc, n, buf, len, arg, res>>
B(t) == IF Private THEN t ELSE CHOOSE u \in Threads : TRUE
RECURSIVE Numeral(_)
Numeral(v) == IF v < 2 THEN <<v>> ELSE Append(Numeral(v \div 2), v % 2)
Width == 4
RECURSIVE Read(_, _, _)
Read(b, i, j) == IF i > j THEN <<>> ELSE <<b[i]>> \o Read(b, i + 1, j)

Init == /\ pc = [t \in Threads |-> "idle"] /\ n = [t \in Threads |-> 0] /\ len = [t \in Threads |-> 0]
        /\ buf = [t \in Threads |-> [i \in 1 .. Width |-> 9]]
        /\ arg = [t \in Threads |-> 0] /\ res = [t \in Threads |-> <<>>]
Call(t) == /\ pc[t] = "idle" /\ \E v \in Values : arg' = [arg EXCEPT ![t] = v] /\ n' = [n EXCEPT ![t] = v]
           /\ len' = [len EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = "digit"] /\ UNCHANGED <<buf, res>>
Digit(t) == /\ pc[t] = "digit"
            /\ buf' = [buf EXCEPT ![B(t)][Width - len[t]] = n[t] % 2]
            /\ len' = [len EXCEPT ![t] = len[t] + 1] /\ n' = [n EXCEPT ![t] = n[t] \div 2]
            /\ pc' = [pc EXCEPT ![t] = IF n[t] < 2 THEN "return" ELSE "digit"] /\ UNCHANGED <<arg, res>>
Return(t) == /\ pc[t] = "return" /\ res' = [res EXCEPT ![t] = Read(buf[B(t)], Width - len[t] + 1, Width)]
             /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<buf, n, len, arg>>
Done(t) == pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<buf, n, len, arg, res>>
Next == \E t \in Threads : Call(t) \/ Digit(t) \/ Return(t) \/ Done(t)
Undisturbed == \A t \in Threads : pc[t] = "done" => res[t] = Numeral(arg[t])
=============================================================================
