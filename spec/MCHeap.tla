------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* Formatter objects as memory: each object is a block holding a buffer    *)
(* and a pointer to where its text starts (a block and an offset).  Blocks *)
(* are reused: destroying an object scribbles over its buffer.  Copying is *)
(* either Deep (the copy points into its own buffer) or shallow (member    *)
(* by member).  Shown must always be the text of the value the object      *)
(* stands for; with shallow copying TLC finds a history where it is not.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Slots, Keys, Deep
VARIABLES val, buf, ptr          \* val: the abstract value (0: none); buf: the bytes; ptr: which block the text pointer addresses
Scribble == -1
Live(d) == val[d] # 0
Shown(d) == buf[ptr[d]]

Init == /\ val = [d \in Slots |-> 0] /\ buf = [d \in Slots |-> Scribble] /\ ptr = [d \in Slots |-> d]
Rebased(d, p) == IF Deep THEN d ELSE p
CopyTo(d, s, v2, b2, p2) == /\ val' = [v2 EXCEPT ![d] = val[s]]
                            /\ buf' = [b2 EXCEPT ![d] = buf[s]]
                            /\ ptr' = [p2 EXCEPT ![d] = Rebased(d, ptr[s])]
New == \E d \in Slots, k \in Keys : /\ ~Live(d) /\ val' = [val EXCEPT ![d] = k]
                                    /\ buf' = [buf EXCEPT ![d] = k] /\ ptr' = [ptr EXCEPT ![d] = d]
Copy == \E d, s \in Slots : ~Live(d) /\ Live(s) /\ CopyTo(d, s, val, buf, ptr)
Move == \E d, s \in Slots : /\ ~Live(d) /\ Live(s)
                            /\ CopyTo(d, s, [val EXCEPT ![s] = 0], [buf EXCEPT ![s] = Scribble], ptr)
Assign == \E d, s \in Slots : Live(d) /\ Live(s) /\ CopyTo(d, s, val, buf, ptr)
MoveAssign == \E d, s \in Slots : /\ Live(d) /\ Live(s) /\ d # s
                                  /\ CopyTo(d, s, [val EXCEPT ![s] = 0], [buf EXCEPT ![s] = Scribble], ptr)
Swap == \E a, b \in Slots : /\ Live(a) /\ Live(b) /\ a # b
                            /\ val' = [val EXCEPT ![a] = val[b], ![b] = val[a]]
                            /\ buf' = [buf EXCEPT ![a] = buf[b], ![b] = buf[a]]
                            /\ ptr' = [ptr EXCEPT ![a] = Rebased(a, ptr[b]), ![b] = Rebased(b, ptr[a])]
Destroy == \E d \in Slots : /\ Live(d) /\ val' = [val EXCEPT ![d] = 0]
                            /\ buf' = [buf EXCEPT ![d] = Scribble] /\ UNCHANGED ptr
Next == New \/ Copy \/ Move \/ Assign \/ MoveAssign \/ Swap \/ Destroy
Independent == \A d \in Slots : Live(d) => Shown(d) = val[d]
OwnMemory == Deep => \A d \in Slots : Live(d) => ptr[d] = d
=============================================================================
