------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* The big integer as a register machine over exact naturals, and the      *)
(* validation of recorded histories against it.                            *)
(*                                                                         *)
(* regs: the value of each register, as bytes (base-256 limbs).  After     *)
(* each call the driver logs the whole representation of the register it   *)
(* changed; Explained demands that this is the mathematical result (or     *)
(* that the call was entitled to raise an error), and the register then    *)
(* holds the logged value.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

CONSTANTS Prop, TraceFile
X == INSTANCE BigNat WITH B <- 256
Sessions == ndJsonDeserialize(TraceFile)

VARIABLES regs, sid, l
tvars == <<regs, sid, l>>

(* little-endian 16-bit words to bytes *)
BytesOf(ws) == X!Trim([i \in 1 .. (2 * Len(ws)) |->
                  IF i % 2 = 1 THEN ws[(i + 1) \div 2] % 256 ELSE ws[i \div 2] \div 256])
MinCapacityBytes == 416           \* 3328 bits are always available
Fits(n) == Len(n) <= MinCapacityBytes

(* The representation: whole 64-bit words, no leading zero word. *)
Canonical(ws) == /\ Len(ws) % 4 = 0 /\ Len(ws) >= 4
                 /\ Len(ws) > 4 => \E i \in 0 .. 3 : ws[Len(ws) - i] # 0

RECURSIVE MulPow5(_, _)
MulPow5(n, k) == IF k = 0 THEN n
                 ELSE IF k >= 9 THEN MulPow5(X!MulSmall(n, 1953125), k - 9)
                 ELSE MulPow5(X!MulSmall(n, 5), k - 1)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Shl(n, k) == X!ShiftLimbs(X!MulSmall(n, P2[(k % 8) + 1]), k \div 8)

AllDigits(s) == \A i \in 1 .. Len(s) : s[i] >= 48 /\ s[i] <= 57
RECURSIVE Group4(_, _)
Group4(ds, i) == IF i > Len(ds) THEN <<>>
                 ELSE <<ds[i] * 1000 + ds[i + 1] * 100 + ds[i + 2] * 10 + ds[i + 3]>> \o Group4(ds, i + 4)
FromDecimal(s) == LET pad == [i \in 1 .. ((4 - (Len(s) % 4)) % 4) |-> 0]
                  IN X!FromDigits(Group4(pad \o [i \in 1 .. Len(s) |-> s[i] - 48], 1), 10000)

Ev == Sessions[sid][l]
Changing == {"dec", "word", "setw", "copy", "assign", "self", "add", "mul", "mul32", "pow5", "shl", "diff"}
Result(e) ==                        \* the mathematical result of a changing call
  CASE e.o = "dec" -> FromDecimal(e.s)
    [] e.o \in {"word", "setw"} -> BytesOf(e.k)
    [] e.o \in {"copy", "assign"} -> regs[e.s]
    [] e.o = "self" -> regs[e.d]
    [] e.o = "add" -> X!Add(regs[e.d], BytesOf(e.k))
    [] e.o \in {"mul", "mul32"} -> X!Mul(regs[e.d], BytesOf(e.k))
    [] e.o = "pow5" -> MulPow5(regs[e.d], e.k)
    [] e.o = "shl" -> Shl(regs[e.d], e.k)
    [] e.o = "diff" -> X!AbsDiff(regs[e.s], regs[e.r])

(* Must this call raise an error?  (dec of a non-digit, difference of equals) *)
MustThrow(e) == \/ e.o = "dec" /\ ~AllDigits(e.s)
                \/ e.o = "diff" /\ regs[e.s] = regs[e.r]

Logged(e) == /\ Canonical(e.after)
             /\ e.z = (IF BytesOf(e.after) = <<>> THEN 1 ELSE 0)
Bool(b) == IF b THEN 1 ELSE 0

CallOK(e) ==
  IF e.o \in Changing
  THEN IF MustThrow(e) THEN e.kind = "throw"
       ELSE LET r == Result(e)
            IN \/ /\ e.kind = "ret" /\ Logged(e) /\ BytesOf(e.after) = r
                  /\ e.o = "diff" => e.res = Bool(X!Lt(regs[e.s], regs[e.r]))
               \/ e.kind = "throw" /\ ~Fits(r)
  ELSE /\ Logged(e) /\ BytesOf(e.after) = regs[e.d]          \* queries change nothing
       /\ CASE e.o = "cmp" -> e.kind = "ret" /\ e.res = X!Cmp(regs[e.d], regs[e.s])
            [] e.o = "eq" -> e.kind = "ret" /\ e.res = Bool(regs[e.d] = regs[e.s])
            [] e.o = "eqw" -> e.kind = "ret" /\ e.res = Bool(regs[e.d] = BytesOf(e.k))
            [] e.o = "digit" -> IF e.k * 4 < Len(e.after)
                                THEN e.kind = "ret" /\ e.res = SubSeq(e.after, 4 * e.k + 1, 4 * e.k + 4)
                                ELSE e.kind = "throw"
            [] e.o = "show" -> e.kind = "ret"
            [] OTHER -> FALSE
Explained == l <= Len(Sessions[sid]) /\ Ev.o # "fault" => CallOK(Ev)

TraceInit == regs = [i \in 0 .. 7 |-> <<>>] /\ sid \in 1 .. Len(Sessions) /\ l = 1
TCall == /\ l <= Len(Sessions[sid]) /\ Ev.o # "fault"
         /\ regs' = [regs EXCEPT ![Ev.d] = BytesOf(Ev.after)]
         /\ l' = l + 1 /\ UNCHANGED sid
TEnd == l > Len(Sessions[sid]) /\ UNCHANGED tvars
TraceNext == TCall \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
