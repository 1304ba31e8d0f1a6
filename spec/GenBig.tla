------------------------------- MODULE GenBig -------------------------------
(***************************************************************************)
(* Random-walk histories of big-integer registers (run with -simulate).    *)
(* The state keeps, per register, a coarse size class so that walks spend  *)
(* their time between small numbers and the capacity limit.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Regs, Words, Pows, Shifts, Decimals, Walk
VARIABLES bits, hist                  \* bits: upper bound of each register's length
MaxBits == 3700

Do(op, d, s, k, b) == /\ bits' = [bits EXCEPT ![d] = b]
                      /\ hist' = Append(hist, <<op, d, s, k>>)
Init == bits = [r \in Regs |-> 0] /\ hist = <<>>
Next ==
  \/ \E d \in Regs, k \in Decimals : Do("dec", d, 0, k, 3)
  \/ \E d \in Regs, k \in Words : Do("word", d, 0, k, 64)
  \/ \E d, s \in Regs : d # s /\ Do("copy", d, s, 0, bits[s])
  \/ \E d, s \in Regs : d # s /\ Do("assign", d, s, 0, bits[s])
  \/ \E d \in Regs : Do("self", d, 0, 0, bits[d])
  \/ \E d \in Regs, k \in Words : bits[d] < MaxBits /\ Do("add", d, 0, k, bits[d] + 1)
  \/ \E d \in Regs, k \in Words : bits[d] < MaxBits /\ Do("mul", d, 0, k, bits[d] + 64)
  \/ \E d \in Regs, k \in Pows : bits[d] < MaxBits /\ Do("pow5", d, 0, k, bits[d] + (7 * k) \div 3 + 1)
  \/ \E d \in Regs, k \in Shifts : bits[d] < MaxBits /\ Do("shl", d, 0, k, bits[d] + k)
  \/ \E d, s \in Regs, r \in Regs : d # s /\ Do("diff", d, s, r, IF bits[s] > bits[r] THEN bits[s] ELSE bits[r])
  \/ \E d, s \in Regs : d # s /\ Do("cmp", d, s, 0, bits[d])
  \/ \E d, s \in Regs : d # s /\ Do("eq", d, s, 0, bits[d])
  \/ \E d \in Regs : Do("show", d, 0, 0, bits[d])
Short == Len(hist) <= Walk
Emit == Len(hist') = Walk => PrintT("HIST " \o ToJson(hist'))
=============================================================================
