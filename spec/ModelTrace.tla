----------------------------- MODULE ModelTrace -----------------------------
(***************************************************************************)
(* P13 and P14: traces of an object of declared classes which is rendered    *)
(* and parsed.  A case is a class model and the events                       *)
(*   render: obj -> tree, or refused                                         *)
(*   parse:  tree (in some presentation) -> obj, or refused                  *)
(*   round:  obj -> XML -> obj                                               *)
(* `object` and `document` are what the last event left.                     *)
(***************************************************************************)
EXTENDS ClassModel, TraceBase

VARIABLES c, i, object, document
vars == <<c, i, object, document>>

RenderFaults(m, e) ==
    LET refused == Refused(m, e.obj.c, e.obj)
    IN  CASE refused /\ e.ok -> {"rendered although a required attribute is missing or a list has a wrong size"}
          [] refused /\ ~e.ok -> IF e.exc = "ValueError" THEN {} ELSE {"refused with something else than ValueError"}
          [] ~refused /\ ~e.ok -> {"an object which can be rendered is refused"}
          [] OTHER -> (IF e.tree.n = e.tag /\ e.tree.ns = e.ns THEN {} ELSE {"wrong name of the root"})
                      \cup Mirror(m, e.q, e.ctx, e.obj, e.tree)

ParseFaults(m, e) ==
    LET unreadable == Unreadable(m, e.type, e.tree) # {}
    IN  CASE unreadable /\ e.ok -> {"parsed although a field can not hold the value"}
          [] unreadable /\ ~e.ok -> IF e.exc = "ValueError" THEN {} ELSE {"refused with something else than ValueError"}
          [] ~unreadable /\ ~e.ok -> {"a readable document is refused"}
          [] OTHER -> IF e.obj.t # "obj" THEN {"no object"}
                      ELSE IF e.obj.c # e.type THEN {"object of another class"}
                      ELSE Recovered(m, e.type, e.tree, e.obj)

RoundFaults(m, e) ==
    IF ~e.ok THEN {"the document rendered is refused when parsed"}
    ELSE IF SameObject(m, e.obj, e.back) THEN {} ELSE {"parsing the document rendered gives another object"}

Faults(m, e) ==
    CASE e.op = "render" -> RenderFaults(m, e)
      [] e.op = "parse" -> ParseFaults(m, e)
      [] e.op = "round" -> RoundFaults(m, e)

TraceInit == c \in 1..CaseCount /\ i = 0 /\ object = None /\ document = None
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
       IN  /\ object' = i + 1 /\ document' = i + 1
           /\ Judge(c, i + 1, Faults(Cases[c].model, e))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
