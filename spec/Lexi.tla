-------------------------------- MODULE Lexi --------------------------------
(***************************************************************************)
(* The lexi library as a state machine.                                    *)
(*                                                                         *)
(* State                                                                   *)
(*   words  the configured spellings of null/true/false/NaN/Infinity       *)
(*   texts  what a pristine process shows for a value: <<type, bits>> |->  *)
(*          text (the observed meaning of a formatter object)              *)
(*   heap   the live formatter objects: slot |-> <<type, bits>>            *)
(*   memo   results of calls made alone, in the reference environment      *)
(*   readers  the live extractor objects: slot |-> <<class, text>>         *)
(*                                                                         *)
(* Every action is one public call, parameterised by what the call         *)
(* returned; the guard says which results the specification allows.  Each  *)
(* guard is a conjunction of named clauses, one per property; Prop selects *)
(* the property being judged ("ALL" judges every clause), so that a check  *)
(* reports only violations of its own property.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bytes, Ints, Texts, Floats

CONSTANT Prop
VARIABLES words, texts, heap, memo, readers
vars == <<words, texts, heap, memo, readers>>

J(p) == Prop = p \/ Prop = "ALL"
All(r, x) == \A i \in 1 .. Len(r) : r[i] = x
Same(r) == \A i \in 1 .. Len(r) : r[i] = r[1]

WordTypes == {"null", "bool", "char"}
Empty == <<>>

LexiInit == words = DefaultWords /\ texts = <<>> /\ heap = <<>> /\ memo = <<>> /\ readers = <<>>

(***************************************************************************)
(* Formatting                                                              *)
(***************************************************************************)
(* The one text of a value that is not a finite non-zero float. *)
WordText(t, v) == CASE t = "null" -> words.null
                    [] t = "bool" -> IF v[1] = 0 THEN words.false ELSE words.true
                    [] OTHER -> <<v[1]>>
ZeroText == <<48, DOT, 48>>
Special(t, v) == IsNaN(t, v) \/ IsInf(t, v) \/ IsZero(t, v)
SpecialText(t, v) == IF IsNaN(t, v) THEN words.nan
                     ELSE IF IsInf(t, v) THEN (IF Negative(t, v) THEN words.ninf ELSE words.inf)
                     ELSE ZeroText

(* Clauses about the text r of the double v. *)
DoubleText(v, r) ==
  IF Special("f64", v)
  THEN /\ J("C07") => r = SpecialText("f64", v)
       /\ J("C04") /\ IsZero("f64", v) => LexFloat(r).k = "zero" /\ LexFloat(r).n = Len(r) + 1
       /\ J("C15") /\ ~IsZero("f64", v) => r = SpecialText("f64", v)
  ELSE \/ ~(J("C04") \/ J("C05") \/ J("C06"))
       \/ LET l == LexFloat(r)
          IN /\ IsDecimal(r, l)
             /\ J("C04") => Identifies(v, l)
             /\ J("C05") => DecExp(l) < 330 /\ DecExp(l) > -350 /\ Shortest(v, l)
             /\ J("C06") => /\ DecExp(l) < 330 /\ DecExp(l) > -350
                            /\ r = Layout(Negative("f64", v), l.ds, DecExp(l))
                            /\ SameMagnitude(v, l)

(* r: the texts from every entry point; for f32 and f80 dv is the double    *)
(* the value converts to and dr the text of that double.                    *)
FormatOK(t, v, r, dv, dr) ==
  /\ J("C20") => Same(r)
  /\ t \in IntTypes /\ (J("C01") \/ J("C20")) => All(r, IntText(t, v))
  /\ t \in (EnumTypes \cup {"fpos"}) /\ J("C20") => All(r, IntText(t, v))
  /\ t \in WordTypes /\ (J("C11") \/ J("C20") \/ J("C15")) => All(r, WordText(t, v))
  /\ t = "f64" => \A i \in 1 .. Len(r) : (i > 1 /\ r[i] = r[1]) \/ DoubleText(v, r[i])
  /\ t = "f64" /\ J("C20") => \/ Special(t, v) /\ All(r, SpecialText(t, v))
                              \/ IsDecimal(r[1], LexFloat(r[1]))
  /\ t \in {"f32", "f80"} /\ (J("C07") \/ J("C20")) =>
        /\ CorrectlyConverted(t, v, "f64", dv)
        /\ All(r, dr)
        /\ Special("f64", dv) => All(r, SpecialText("f64", dv))
        /\ ~Special("f64", dv) => IsDecimal(dr, LexFloat(dr))

Format(t, v, r, dv, dr) == FormatOK(t, v, r, dv, dr) /\ UNCHANGED vars

(* j is the JSON form of the value v: a literal of the kind its type calls  *)
(* for, and one that stands for v.  d is the double a float or long double  *)
(* converts to.  NaN and the infinities have no JSON form.                  *)
Dbl(t, v, e) == IF t \in {"f32", "f80"} THEN e.dv ELSE v
JsonValue(t, v, d, j) ==
  CASE t = "null" -> j = DefaultWords.null
    [] t = "bool" -> j = (IF v[1] = 0 THEN DefaultWords.false ELSE DefaultWords.true)
    [] t = "char" -> JsonRel(<<v[1]>>, j)
    [] t \in FloatTypes -> \/ IsNaN("f64", d) \/ IsInf("f64", d)
                           \/ /\ JsonNumber(j)
                              /\ IF IsZero("f64", d) THEN LexFloat(j).k = "zero"
                                 ELSE LET l == LexFloat(j) IN l.n = Len(j) + 1 /\ IsDecimal(j, l) /\ Identifies(d, l)
    [] OTHER -> JsonInteger(j) /\ j = IntText(t, v)

(* Every accessor of one formatter object, and the generic functions. *)
ViewsOK(t, v, e) ==
  /\ J("C13") =>
       /\ e.size = e.length /\ e.same = 1 /\ e.nul = 0
       /\ Len(e.data) = e.size /\ e.cstr = e.data
       /\ e.string = e.data /\ e.conv = e.data
       /\ e.gl = e.data /\ e.gs = e.data /\ e.gf = e.data
       /\ e.ge = e.esc /\ e.gj = e.json
       /\ t # "char" => e.esc = e.data /\ e.json = e.data
       /\ t = "char" => e.esc = Escape(e.data) /\ JsonRel(e.data, e.json)
  /\ J("C11") /\ t \in WordTypes =>
       /\ e.string = WordText(t, v) /\ e.data = WordText(t, v)
       /\ t # "char" => e.json = WordText(t, v)
       /\ t = "char" => JsonRel(<<v[1]>>, e.json)
  /\ J("C15") /\ (t \in WordTypes \/ (t \in FloatTypes /\ (IsNaN(t, v) \/ IsInf(t, v)))) =>
       LET w == IF t \in WordTypes THEN WordText(t, v) ELSE SpecialText(t, v)
       IN /\ e.size = Len(w) /\ e.length = Len(w) /\ e.nul = 0
          /\ e.data = w /\ e.cstr = w /\ e.string = w /\ e.conv = w
          /\ e.gl = w /\ e.gs = w /\ e.gf = w
          /\ t # "char" => e.esc = w /\ e.json = w /\ e.ge = w /\ e.gj = w
  /\ J("C14") => e.cap = 0 \/ e.size < e.cap              \* text and terminator fit the buffer
  /\ J("C26") => JsonValue(t, v, Dbl(t, v, e), e.json) /\ (e.gj # e.json => JsonValue(t, v, Dbl(t, v, e), e.gj))
  /\ J("C20") => e.gl = e.string /\ e.gs = e.string /\ e.gf = e.string /\ e.ge = e.esc /\ e.gj = e.json

Views(t, v, e) == ViewsOK(t, v, e) /\ UNCHANGED vars

(***************************************************************************)
(* Extraction: kind k in {"ret", "throw", "other"}, value x                *)
(***************************************************************************)
WordRead(t, s, k, x) ==
  CASE t = "null" -> IF s = words.null THEN k = "ret" ELSE k = "throw"
    [] t = "bool" -> IF s = words.true THEN k = "ret" /\ x = <<1>>
                     ELSE IF s = words.false THEN k = "ret" /\ x = <<0>>
                     ELSE k = "throw"
    [] OTHER -> IF s = <<>> THEN k = "throw" ELSE k = "ret" /\ x = <<s[1]>>

(* C02 leaves nothing open for integers; for enumerations and positions    *)
(* C02 and C20 both apply.                                                 *)
ExtractOK(t, s, k, x) ==
  /\ J("C14") => k = "ret" \/ (k = "throw" /\ t \in WordTypes)
  /\ t \in NumericTypes /\ (J("C02") \/ J("C20")) => k = "ret" /\ x = ReadInt(t, s)
  /\ t \in WordTypes /\ (J("C11") \/ J("C15") \/ J("C20")) => WordRead(t, s, k, x)
  /\ t \in FloatTypes /\ (J("C08") \/ J("C20")) => k = "ret" /\ CorrectlyRead(t, s, x)

Extract(t, s, k, x) == ExtractOK(t, s, k, x) /\ UNCHANGED vars

(* Formatting then extracting. *)
SameValue(t, v, x) == IF t \in FloatTypes
                      THEN \/ v = x
                           \/ IsNaN(t, v) /\ IsNaN(t, x)
                           \/ IsZero(t, v) /\ IsZero(t, x)
                      ELSE v = x
RoundTripOK(t, v, s, k, x) == J("C03") => k = "ret" /\ SameValue(t, v, x)
RoundTrip(t, v, s, k, x) == RoundTripOK(t, v, s, k, x) /\ UNCHANGED vars

(***************************************************************************)
(* Strings                                                                 *)
(***************************************************************************)
JsonOK(s, r) == J("C09") => \A i \in 1 .. Len(r) : JsonRel(s, r[i])
EscOK(s, r)  == J("C10") => \A i \in 1 .. Len(r) : EscapeRel(s, r[i])
(* A program that makes call f on an argument (or for a result) of type t, where the types have the promised form and   *)
(* nothing is converted on the way, is accepted by the compiler.                                                        *)
TextTypes == {"string", "derived", "cstr", "pchar", "array"}
CallForms == [lexi |-> WordTypes \cup NumericTypes \cup FloatTypes \cup TextTypes \cup {"ebool"},
              string |-> WordTypes \cup NumericTypes \cup FloatTypes \cup TextTypes \cup {"ebool"},
              escape |-> WordTypes \cup NumericTypes \cup FloatTypes \cup TextTypes \cup {"ebool"},
              jsonify |-> WordTypes \cup NumericTypes \cup FloatTypes \cup TextTypes \cup {"ebool"},
              extract |-> WordTypes \cup NumericTypes \cup FloatTypes \cup {"ebool"}]
Accepted(f, t) == IF f \in DOMAIN CallForms THEN t \in CallForms[f] ELSE f \in {"format class", "extract class"} /\ t # "fpos"
AcceptOK(e) == J("C20") => (e.ok = 1) = Accepted(e.f, e.t)
PassOK(s, r) == J("C13") \/ J("C20") => All(r, s)
Json(s, r) == JsonOK(s, r) /\ UNCHANGED vars
Esc(s, r)  == EscOK(s, r) /\ UNCHANGED vars
Pass(s, r) == PassOK(s, r) /\ UNCHANGED vars

(***************************************************************************)
(* Configuration of a build                                                *)
(***************************************************************************)
Configure(w) == words' = w /\ UNCHANGED <<texts, heap, memo, readers>>

(***************************************************************************)
(* Formatter objects                                                       *)
(***************************************************************************)
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Bind(k, x) == k :> x

(* live: what every live object shows after the call *)
Shows(h, live) ==
  J("C12") => /\ {live[i][1] : i \in 1 .. Len(live)} = DOMAIN h
              /\ \A i \in 1 .. Len(live) : live[i][2] = texts[h[live[i][1]]]
HeapStep(h, live) == heap' = h /\ Shows(h, live) /\ UNCHANGED <<words, texts, memo, readers>>

Baseline(t, v, r) == texts' = Bind(<<t, v>>, r) @@ texts /\ UNCHANGED <<words, heap, memo, readers>>
New(d, t, v, live) == d \notin DOMAIN heap /\ HeapStep(Bind(d, <<t, v>>) @@ heap, live)
Copy(d, s, live) == s \in DOMAIN heap /\ d \notin DOMAIN heap /\ HeapStep(Bind(d, heap[s]) @@ heap, live)
Move(d, s, live) == s \in DOMAIN heap /\ d \notin DOMAIN heap
                    /\ HeapStep(Bind(d, heap[s]) @@ Without(heap, s), live)
Assign(d, s, live) == {d, s} \subseteq DOMAIN heap /\ HeapStep(Bind(d, heap[s]) @@ heap, live)
MoveAssign(d, s, live) == {d, s} \subseteq DOMAIN heap /\ d # s
                          /\ HeapStep(Bind(d, heap[s]) @@ Without(heap, s), live)
Swap(a, b, live) == {a, b} \subseteq DOMAIN heap /\ HeapStep(Bind(a, heap[b]) @@ (Bind(b, heap[a]) @@ heap), live)
Keep(d, live) == d \in DOMAIN heap /\ HeapStep(heap, live)     \* self assignment, by value, reallocation
Destroy(d, live) == d \in DOMAIN heap /\ HeapStep(Without(heap, d), live)

(***************************************************************************)
(* Extractor objects: each holds the reading of one text, for every type   *)
(* of its class, for as long as it lives.                                  *)
(***************************************************************************)
Accepts(c, s) == CASE c = "null" -> s = words.null
                   [] c = "bool" -> s \in {words.true, words.false}
                   [] c = "char" -> s # <<>>
                   [] OTHER -> TRUE
Meaning(c, t, s, x) == CASE c \in {"int", "enum"} -> x = ReadInt(t, s)
                         [] c = "float" -> CorrectlyRead(t, s, x)
                         [] c = "bool" -> x = <<IF s = words.true THEN 1 ELSE 0>>
                         [] c = "null" -> x = <<0>>
                         [] OTHER -> x = <<s[1]>>
ReaderStep(r) == readers' = r /\ UNCHANGED <<words, texts, heap, memo>>
ReadText(d, c, s, k) == IF J("C23")
                        THEN /\ k = (IF Accepts(c, s) THEN "ret" ELSE "throw")
                             /\ ReaderStep(IF k = "ret" THEN Bind(d, <<c, s>>) @@ readers ELSE readers)
                        ELSE ReaderStep(IF k = "ret" THEN Bind(d, <<c, s>>) @@ readers ELSE readers)
ReaderCopy(d, s) == s \in DOMAIN readers /\ ReaderStep(Bind(d, readers[s]) @@ readers)
ReaderSwap(a, b) == {a, b} \subseteq DOMAIN readers /\ ReaderStep(Bind(a, readers[b]) @@ (Bind(b, readers[a]) @@ readers))
ReaderDrop(d) == d \in DOMAIN readers /\ ReaderStep(Without(readers, d))
ReaderGetOK(d, t, x) == /\ d \in DOMAIN readers
                        /\ J("C23") \/ J("C20") => Meaning(readers[d][1], t, readers[d][2], x)

(***************************************************************************)
(* What calls leave behind: nothing allocated, no process-wide change.     *)
(***************************************************************************)
MemOK(e) == J("C22") => e.grow <= 0
EnvOK(e) == J("C22") => e.a = e.b

(***************************************************************************)
(* Memory exhaustion.  e.full is the outcome <<kind, result>> of the call   *)
(* with memory to spare (kind 0: returned, 1: std::runtime_error, 2:        *)
(* std::bad_alloc), e.r the outcomes when one of its allocations, or that   *)
(* one and all that follow, failed; e.old what there was before the call,   *)
(* e.after the outcome of the same call afterwards.                         *)
(***************************************************************************)
OomOK(e) == J("C27") => /\ e.full[1] \in {0, 1}
                        /\ \A i \in 1 .. Len(e.r) : e.r[i] = e.full \/ e.r[i] = <<2, e.old>>
                        /\ e.after = e.full
                        /\ e.grow <= 0

(***************************************************************************)
(* Cost.  us: processor time in microseconds, mem: the most memory held,    *)
(* for a text and for one eight times as long.  Proportional growth is a    *)
(* factor 8; a factor 24 plus half a second allows for noise and for        *)
(* caches, while quadratic growth (a factor 64, from minutes of work at     *)
(* these lengths) stays far outside.                                        *)
(***************************************************************************)
CostOK(e) == J("C29") => /\ e.us[2] <= 24 * e.us[1] + 500000
                         /\ e.mem[2] <= 64 * e.len[2] + 65536

(***************************************************************************)
(* The same call in another environment (locale, thread, build, history)   *)
(***************************************************************************)
Remember(e) == memo' = Append(memo, e) /\ UNCHANGED <<words, texts, heap, readers>>

SameCall(a, b) == DOMAIN a = DOMAIN b /\ a.o = b.o
SameResult(a, b) ==
  \/ a = b
  \/ /\ a.o = b.o /\ a.o \in {"ext", "rt"} /\ a.t = b.t /\ a.t \in FloatTypes
     /\ a.s = b.s /\ a.k = "ret" /\ b.k = "ret"
     /\ (a.o = "rt" => a.v = b.v)
     /\ IsNaN(a.t, a.x) /\ IsNaN(b.t, b.x)

(* Known finding: where the decimal point of the selected locale is ',',    *)
(* float extraction reads ',' as the decimal point and stops at '.'.        *)
CommaView(s) == [i \in 1 .. Len(s) |-> IF s[i] = DOT THEN 35 ELSE IF s[i] = 44 THEN DOT ELSE s[i]]
KnownComma(a, b) == /\ a.o = b.o /\ a.o \in {"ext", "rt"} /\ a.t = b.t /\ a.t \in FloatTypes
                    /\ a.s = b.s /\ b.k = "ret"
                    /\ (a.o = "rt" => a.v = b.v)
                    /\ \E i \in 1 .. Len(a.s) : a.s[i] \in {DOT, 44}
                    /\ CorrectlyRead(b.t, CommaView(b.s), b.x)

(* comma: the environment's decimal point is ','. *)
AgainOK(i, e, comma) ==
  /\ i \in 1 .. Len(memo)
  /\ \/ SameResult(memo[i], e)
     \/ /\ ~SameResult(memo[i], e)
        /\ comma = 1 /\ J("C19") /\ KnownComma(memo[i], e)
        /\ PrintT(<<"KNOWN-COMMA-LOCALE", e.o, e.t, e.s>>)
Again(i, e, comma) == AgainOK(i, e, comma) /\ UNCHANGED vars
=============================================================================
