------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is every recorded session of the real library a       *)
(* behaviour of Lexi?                                                      *)
(*                                                                         *)
(* The trace file has one session per line: an array of events as logged   *)
(* by harness/driver.cpp.  A session starts in any initial state of Lexi;  *)
(* each event must be a step of the corresponding action with the logged   *)
(* arguments and results.  TLC explores all sessions (one initial state    *)
(* each) in parallel; a session whose next event no action explains        *)
(* deadlocks.  The event "fault" (the process died, hung, or a sanitizer   *)
(* reported) is explained by no action.                                    *)
(***************************************************************************)
EXTENDS Lexi, Json, IOUtils

CONSTANT TraceFile
Sessions == ndJsonDeserialize(TraceFile)

VARIABLES sid, l
tvars == <<words, texts, heap, memo, readers, sid, l>>

TraceInit == LexiInit /\ sid \in 1 .. Len(Sessions) /\ l = 1

Ev == Sessions[sid][l]
IsEvent(o) == l <= Len(Sessions[sid]) /\ Ev.o = o /\ l' = l + 1 /\ UNCHANGED sid
Opt(e, f) == IF f \in DOMAIN e THEN e[f] ELSE <<>>

(***************************************************************************)
(* Calls that do not change the state.  TLC caches LET values in state     *)
(* predicates but not in actions, so the (expensive) guards of these       *)
(* actions are checked as the invariant Explained of the state in which    *)
(* the call is made; a violated guard is a violated invariant.             *)
(***************************************************************************)
PureCalls == {"fmt", "views", "ext", "rt", "json", "esc", "pass", "again", "rget", "mem", "env", "oom", "cost", "accept"}
CallOK(e) == CASE e.o = "fmt"   -> FormatOK(e.t, e.v, e.r, Opt(e, "dv"), Opt(e, "d"))
               [] e.o = "views" -> ViewsOK(e.t, e.v, e)
               [] e.o = "ext"   -> ExtractOK(e.t, e.s, e.k, e.x)
               [] e.o = "rt"    -> RoundTripOK(e.t, e.v, e.s, e.k, e.x)
               [] e.o = "json"  -> JsonOK(e.s, e.r)
               [] e.o = "esc"   -> EscOK(e.s, e.r)
               [] e.o = "pass"  -> PassOK(e.s, e.r)
               [] e.o = "again" -> AgainOK(e.i, e.e, e.comma)
               [] e.o = "rget"  -> ReaderGetOK(e.d, e.t, e.x)
               [] e.o = "mem"   -> MemOK(e)
               [] e.o = "env"   -> EnvOK(e)
               [] e.o = "oom"   -> OomOK(e)
               [] e.o = "cost"  -> CostOK(e)
               [] e.o = "accept" -> AcceptOK(e)
Explained == (l <= Len(Sessions[sid]) /\ Ev.o \in PureCalls) => CallOK(Ev)

TCall   == l <= Len(Sessions[sid]) /\ Ev.o \in PureCalls /\ l' = l + 1 /\ UNCHANGED <<vars, sid>>
TConfig == IsEvent("config") /\ Configure(Ev.w)
TBase   == IsEvent("base") /\ Baseline(Ev.t, Ev.v, Ev.r)
TNew    == IsEvent("new") /\ New(Ev.d, Ev.t, Ev.v, Ev.live)
TCopy   == IsEvent("copy") /\ Copy(Ev.d, Ev.s, Ev.live)
TMove   == IsEvent("move") /\ Move(Ev.d, Ev.s, Ev.live)
TAssign == IsEvent("assign") /\ Assign(Ev.d, Ev.s, Ev.live)
TMAssign == IsEvent("massign") /\ MoveAssign(Ev.d, Ev.s, Ev.live)
TSwap   == IsEvent("swap") /\ Swap(Ev.d, Ev.s, Ev.live)
TReloc  == IsEvent("reloc") /\ Keep(Ev.d, Ev.live)
TByval  == IsEvent("byval") /\ Keep(Ev.d, Ev.live)
TSelf   == IsEvent("self") /\ Keep(Ev.d, Ev.live)
TDestroy == IsEvent("destroy") /\ Destroy(Ev.d, Ev.live)
TRNew   == IsEvent("rnew") /\ ReadText(Ev.d, Ev.c, Ev.s, Ev.k)
TRCopy  == (IsEvent("rcopy") \/ IsEvent("rassign")) /\ ReaderCopy(Ev.d, Ev.s)
TRSelf  == IsEvent("rself") /\ ReaderCopy(Ev.d, Ev.d)
TRSwap  == IsEvent("rswap") /\ ReaderSwap(Ev.d, Ev.s)
TRDrop  == IsEvent("rdrop") /\ ReaderDrop(Ev.d)
TRef    == IsEvent("ref") /\ Remember(Ev.e)

TEnd == l > Len(Sessions[sid]) /\ UNCHANGED tvars

TraceNext == TCall \/ TConfig \/ TBase
          \/ TNew \/ TCopy \/ TMove \/ TAssign \/ TMAssign \/ TSwap \/ TReloc \/ TByval \/ TSelf
          \/ TRNew \/ TRCopy \/ TRSelf \/ TRSwap \/ TRDrop
          \/ TDestroy \/ TRef \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
