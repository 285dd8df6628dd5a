----------------------------- MODULE ObjectTrace -----------------------------
(***************************************************************************)
(* P15 and P16: histories of operations on real objects.  Each event has the *)
(* operation, whether it raised, and all objects of the process afterwards   *)
(* (`new` is the number of the object made by new, parse or copy).                 *)
(***************************************************************************)
EXTENDS Objects, TraceBase

VARIABLES c, i, heap
vars == <<c, i, heap>>

IsUndecided(m, h, e) ==
    CASE e.op = "new" -> \E k \in 1..Len(e.kw) : e.kw[k].py \in FieldNames(m, e.c) /\
                            LET f == FieldOf(m, e.c, e.kw[k].py) IN
                            IF e.kw[k].g.t = "seq" THEN \E j \in 1..Len(e.kw[k].g.v) : UndecidedItem(m, f, e.kw[k].g.v[j])
                            ELSE UndecidedItem(m, f, e.kw[k].g)
      [] e.op = "set" -> e.py \in FieldNames(m, h[e.id].c) /\
                            LET f == FieldOf(m, h[e.id].c, e.py) IN
                            IF e.g.t = "seq" THEN \E j \in 1..Len(e.g.v) : UndecidedItem(m, f, e.g.v[j])
                            ELSE UndecidedItem(m, f, e.g)
      [] e.op \in {"parse", "copy", "render", "stale"} -> FALSE
      [] OTHER -> LET f == FieldOf(m, h[e.id].c, e.py) IN \E j \in 1..Len(e.items) : UndecidedItem(m, f, e.items[j])

Others(h, e) == IF e.op \in {"new", "parse", "copy", "render", "stale"} THEN 1..Len(h) ELSE 1..Len(h) \ {e.id}
Unchanged(h, a, ids) == \A id \in ids : id <= Len(a) /\ SameEntry(h[id], a[id])

Faults(m, h, e) ==
    LET want == Effect(m, h, e)
        a == e.after
        own == IF e.op \in {"new", "parse", "copy", "render", "stale"} THEN {} ELSE {e.id}
    IN  IF IsUndecided(m, h, e) THEN {}
        ELSE
        (IF Unchanged(h, a, Others(h, e)) THEN {}
         ELSE {IF e.op = "render" THEN "P15: rendering changes an object" ELSE "P15: an operation changes another object"})
        \cup
        CASE want.ok /\ ~e.ok -> {"P16: an operation which has to be accepted is refused"}
          [] ~want.ok /\ e.ok -> {"P16: an operation which has to be refused is accepted"}
          [] ~want.ok /\ ~e.ok -> IF Unchanged(h, a, own) /\ Len(a) = Len(h) THEN {} ELSE {"P16: a refused operation changes the object"}
          [] want.ok /\ e.ok ->
               IF e.op \in {"new", "parse", "copy"}
               THEN (IF Len(a) # Len(want.h) THEN {"P15: a new object consists of other objects than its own"}
                     ELSE UNION {IF SameEntry(a[x], want.h[x]) THEN {}
                                 ELSE {IF e.op = "new" THEN "P15: a new object is not at its defaults and keywords"
                                       ELSE IF e.op = "copy" THEN "P15: a copy is not equal to the object copied" ELSE "P15: a parsed object is not the document's"} :
                                 x \in (Len(h) + 1)..Len(a)})
               ELSE IF Len(a) # Len(h) THEN {"P16: an accepted operation stores an object of its own"}
               ELSE IF Unchanged(want.h, a, own) THEN {} ELSE {"P16: an accepted operation has another effect"}

TraceInit == c \in 1..CaseCount /\ i = 0 /\ heap = <<>>
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
       IN  /\ heap' = e.after
           \* "heap": the trace goes on from another heap
           /\ e.op = "heap" \/ Judge(c, i + 1, Faults(Cases[c].model, heap, e))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
