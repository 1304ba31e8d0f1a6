------------------------------ MODULE IeeeTrace -----------------------------
(* The IEEE 754 classification of double bit patterns and the powers of ten, *)
(* against recorded calls of the internal predicates and lookup.             *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC, Floats

CONSTANTS Prop, TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid][l]
Bool(b) == IF b THEN 1 ELSE 0

CallOK(e) ==
  CASE e.o = "cls" ->
         /\ e.fin = Bool(IsFinite("f64", e.v)) /\ e.nan = Bool(IsNaN("f64", e.v)) /\ e.inf = Bool(IsInf("f64", e.v))
         /\ e.pinf = Bool(IsInf("f64", e.v) /\ ~Negative("f64", e.v))
         /\ e.ninf = Bool(IsInf("f64", e.v) /\ Negative("f64", e.v))
         /\ e.zero = Bool(IsZero("f64", e.v))
         /\ e.pos = Bool(~Negative("f64", e.v))
         /\ e.fin + e.nan + e.inf = 1
    [] e.o = "pow10" -> LET f == Decode("f64", e.x)
                        IN IsFinite("f64", e.x) /\ ~f.neg /\ RoundsTo(f, FrameOfDec(f, <<1>>, e.n))
    [] OTHER -> FALSE
Explained == l <= Len(Sessions[sid]) /\ Ev.o # "fault" => CallOK(Ev)

TraceInit == sid \in 1 .. Len(Sessions) /\ l = 1
TCall == l <= Len(Sessions[sid]) /\ Ev.o # "fault" /\ l' = l + 1 /\ UNCHANGED sid
TEnd == l > Len(Sessions[sid]) /\ UNCHANGED tvars
TraceNext == TCall \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
