------------------------------ MODULE GenHeap -------------------------------
(***************************************************************************)
(* Histories of formatter objects, for replay into the real classes.       *)
(* The state is which value each slot shows (0: no object); hist is the    *)
(* path to it.  Checked with VIEW heap: TLC visits every heap once and     *)
(* prints one history per (heap, operation) transition.  In simulation     *)
(* mode it prints whole random walks instead.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Slots, Keys, Walk            \* Walk = 0: one history per transition; n: walks of length n
VARIABLES heap, hist

Live(d) == heap[d] # 0
Do(op, d, s, k, h) == heap' = h /\ hist' = Append(hist, [o |-> op, d |-> d, s |-> s, k |-> k])

Init == heap = [d \in Slots |-> 0] /\ hist = <<>>
Next ==
  \/ \E d \in Slots, k \in Keys : ~Live(d) /\ Do("new", d, 0, k, [heap EXCEPT ![d] = k])
  \/ \E d, s \in Slots : Live(s) /\ ~Live(d) /\ Do("copy", d, s, 0, [heap EXCEPT ![d] = heap[s]])
  \/ \E d, s \in Slots : Live(s) /\ ~Live(d) /\ Do("move", d, s, 0, [heap EXCEPT ![d] = heap[s], ![s] = 0])
  \/ \E d, s \in Slots : Live(s) /\ Live(d) /\ d # s /\ Do("assign", d, s, 0, [heap EXCEPT ![d] = heap[s]])
  \/ \E d, s \in Slots : Live(s) /\ Live(d) /\ d # s /\ Do("massign", d, s, 0, [heap EXCEPT ![d] = heap[s], ![s] = 0])
  \/ \E d, s \in Slots : Live(s) /\ Live(d) /\ d < s /\ Do("swap", d, s, 0, [heap EXCEPT ![d] = heap[s], ![s] = heap[d]])
  \/ \E d \in Slots, op \in {"reloc", "byval", "self"} : Live(d) /\ Do(op, d, 0, 0, heap)
  \/ \E d \in Slots : Live(d) /\ Do("destroy", d, 0, 0, [heap EXCEPT ![d] = 0])

Short == IF Walk = 0 THEN Len(hist) < 12 ELSE Len(hist) <= Walk
View == heap
Emit == (Walk = 0 \/ Len(hist') = Walk) => PrintT("HIST " \o ToJson(hist'))
=============================================================================
