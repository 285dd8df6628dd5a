---------------------------- MODULE FacetTrace ----------------------------
(***************************************************************************)
(* P10 (and the single field part of P16): a field of a simple type with    *)
(* facets as a state machine.  `held` is what the field holds, a sequence   *)
(* (of length at most one unless the field is a repeated element).  Every    *)
(* entry point of values is an action; the trace says which literals were    *)
(* given, whether the operation was refused and what the field holds after. *)
(***************************************************************************)
EXTENDS SimpleTypes, TraceBase

VARIABLES c, i, held
vars == <<c, i, held>>

T(k) == Cases[k].type
F(k) == Cases[k].facets

Key(v) == IF v.t \in {"dt", "time"} THEN <<v.t, Instant(v)>> ELSE <<v.t, v>>

RECURSIVE AllGiven(_, _, _)
AllGiven(type, f, gs) == \* <<>> if any is refused, else << <<v1, v2, ...>> >>
    IF gs = <<>> THEN << <<>> >>
    ELSE LET v == Given(type, f, gs[1])
             r == AllGiven(type, f, Tail(gs))
         IN  IF v = <<>> \/ r = <<>> THEN <<>> ELSE << v \o r[1] >>

RECURSIVE Flat(_, _)
Repeat(s, n) == IF n <= 0 THEN <<>> ELSE Flat(s, n)
Flat(s, n) == IF n = 1 THEN s ELSE s \o Flat(s, n - 1)

\* What the field holds after the operation, if its values vs are acceptable.
After(e, h, vs) ==
    CASE e.op \in {"assign", "ctor", "whole", "parse", "attr"} -> IF e.fresh /\ e.op = "parse" THEN vs ELSE vs
      [] e.op \in {"append", "extend", "iadd"} -> h \o vs
      [] e.op = "insert" -> SubSeq(h, 1, e.lo) \o vs \o SubSeq(h, e.lo + 1, Len(h))
      [] e.op \in {"setitem", "slice"} -> SubSeq(h, 1, e.lo) \o vs \o SubSeq(h, e.hi + 1, Len(h))

Allowed(k, e, h) == \* << >> if the operation has to be refused, else << contents >>
    LET r == AllGiven(T(k), F(k), e.items)
    IN  IF r = <<>> THEN <<>>
        ELSE LET a == After(e, h, r[1])
             IN  IF Cases[k].max >= 0 /\ Len(a) > Cases[k].max THEN <<>> ELSE <<a>>

SameSeq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameValue(a[j], b[j])

Base(e, h) == IF e.fresh THEN <<>> ELSE h

Faults(k, e, h) ==
    LET want == Allowed(k, e, Base(e, h))
    IN  CASE \E j \in 1..Len(e.items) : Undecided(T(k), F(k), e.items[j]) -> {}
          [] want = <<>> /\ e.ok -> {"accepted a value which violates the type or a facet"}
          [] want # <<>> /\ ~e.ok -> {"refused a value which satisfies the type and all facets"}
          [] want = <<>> /\ ~e.ok -> (IF e.exc = "ValueError" THEN {} ELSE {"refused with something else than ValueError"})
                                      \cup (IF SameSeq(e.after, h) THEN {} ELSE {"a refused value changed the field"})
          [] OTHER -> IF SameSeq(e.after, want[1]) THEN {} ELSE {"stored something else than the accepted value"}

TraceInit == c \in 1..CaseCount /\ i = 0 /\ held = Cases[c].init
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1
    /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
           bad == Faults(c, e, held)
       IN  /\ held' = e.after
           /\ Judge(c, i + 1, bad)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
