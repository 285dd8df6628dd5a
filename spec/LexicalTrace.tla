---------------------------- MODULE LexicalTrace ----------------------------
(***************************************************************************)
(* P12: the text of values.  A field of a simple type is written to XML and *)
(* read from XML; its text and its value have to stay related by the        *)
(* lexical mapping of the type.                                             *)
(*   write: value -> text, and text read back -> back                       *)
(*   read:  text (possibly in pieces around comments) -> value or refusal    *)
(*   give:  a Python value which is not of the type, or a text -> value or     *)
(*          refusal                                                          *)
(*   compare: two dates, value and other -> equal                            *)
(***************************************************************************)
EXTENDS SimpleTypes, TraceBase

VARIABLES c, i, text, value
vars == <<c, i, text, value>>

T(k) == Cases[k].type

\* v has been denoted by the text; r has been read.  Values without an offset are read as UTC.
ReadAs(v, r) ==
    \/ SameValue(v, r)
    \/ v.t \in {"dt", "time"} /\ r.t = v.t /\ v.tz = <<>> /\ r.tz = <<0>> /\ SameValue([v EXCEPT !.tz = <<0>>], r)

Denotes(type, s, v) ==
    LET x == ReadBuiltin(type, s)
    IN  x # <<>> /\ (SameValue(x[1], v) \/ (x[1].t = "nan" /\ v.t = "nan"))

WriteFaults(type, e) ==
    IF ~e.ok THEN {"an accepted value can not be written"}
    ELSE IF e.value = None THEN (IF e.backok /\ e.back = None THEN {} ELSE {"no value is written as a value"})
    ELSE LET d == Denotes(type, e.text, e.value)
         IN  (IF d THEN {} ELSE {"the text written does not denote the value"})
             \cup (IF ~e.backok THEN {"the text written is refused when read"}
                   ELSE IF ReadAs(e.value, e.back) THEN {} ELSE {"reading back yields another value"})
             \cup (IF e.same THEN {} ELSE {"writing is not repeatable"})

\* Numbers which no double is near to.
Extreme(type, v, r) ==
    /\ type \in {"float", "double"} /\ v.t = "num"
    /\ \/ r.t = "inf" /\ r.neg = v.n.neg /\ Len(v.n.i) >= 309
       \/ r.t = "num" /\ r.n.i = <<>> /\ r.n.f = <<>> /\ v.n.i = <<>> /\ Len(v.n.f) >= 323 /\ \A k \in 1..323 : v.n.f[k] = 0

NIL == <<110, 105, 108>>  \* "nil"
EmptyText(type, s, shape) == type \notin StringTypes /\ (s = NIL \/ (s = <<>> /\ shape # "attribute"))

ReadFaults(type, e) ==
    LET x == ReadBuiltin(type, e.text)
    IN  IF EmptyText(type, e.text, e.shape)
        THEN (IF e.ok /\ e.value = None THEN {} ELSE {"an empty element or 'nil' does not read as no value"})
        ELSE IF x # <<>>
        THEN (IF ~e.ok THEN {"a lexical form of the type is refused"}
              ELSE IF ReadAs(x[1], e.value) \/ Extreme(type, x[1], e.value) THEN {} ELSE {"a lexical form reads as another value"})
        ELSE IF MaybeIso(type, e.text) THEN {}
        ELSE IF e.ok THEN {"text outside the lexical space is read as a value"}
        ELSE IF e.exc = "ValueError" THEN {} ELSE {"refused with something else than ValueError"}

\* Texts may be taken for the value they denote, values of other types not at all.
GiveFaults(type, e) ==
    LET x == ReadBuiltin(type, e.text)
    IN  (IF e.clean THEN {} ELSE {"a refused value leaves something behind"})
        \cup (IF ~e.ok THEN (IF e.exc = "ValueError" THEN {} ELSE {"refused with something else than ValueError"})
              ELSE IF e.py # "text" THEN {"a value of another type is accepted"}
              ELSE IF x # <<>> THEN (IF ReadAs(x[1], e.value) THEN {} ELSE {"a text is taken for another value"})
              ELSE IF MaybeIso(type, e.text) THEN {} ELSE {"text outside the lexical space is taken for a value"})

\* Dates are equal if they have the same fields and offset.
CompareFaults(e) ==
    IF ~e.ok THEN {"dates can not be compared"}
    ELSE IF \A k \in 1..Len(e.equal) : e.equal[k] = (e.value = e.other) THEN {} ELSE {"dates which differ are equal or the other way round"}

Faults(type, e) ==
    CASE e.op = "write" -> WriteFaults(type, e)
      [] e.op = "compare" -> CompareFaults(e)
      [] e.op = "give" -> GiveFaults(type, e)
      [] OTHER -> ReadFaults(type, e)

TraceInit == c \in 1..CaseCount /\ i = 0 /\ text = <<>> /\ value = None
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
       IN  /\ text' = e.text /\ value' = e.value
           /\ Judge(c, i + 1, Faults(T(c), e))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
