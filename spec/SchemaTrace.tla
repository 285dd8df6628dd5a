----------------------------- MODULE SchemaTrace -----------------------------
(***************************************************************************)
(* P17: the schema generated for the declared classes is a schema, and it    *)
(* accepts a document exactly if the declarations describe it.  Events:      *)
(*   schema:   the schema has been generated and compiled                    *)
(*   document: a document for the global element elem [n, type, nil], and     *)
(*             whether the schema accepts it (also when an object is read or   *)
(*             rendered with the schema)                                      *)
(***************************************************************************)
EXTENDS ClassModel, TraceBase

VARIABLES c, i, compiled
vars == <<c, i, compiled>>

\* The library reads fractionDigits as the number of digits, XML Schema as their limit: a schema can only be
\* expected to reject what exceeds the limit.
LooseFacets(f) ==
    IF Has(f, "fractionDigits")
    THEN [n \in (DOMAIN f \ {"fractionDigits"}) \cup {"maxFraction"} |-> IF n = "maxFraction" THEN f.fractionDigits ELSE f[n]]
    ELSE f
HasFraction(m) == \E t \in DOMAIN m.types : IsSimple(m, t) /\ Has(m.types[t].facets, "fractionDigits")
Loose(m) ==
    IF ~HasFraction(m) THEN m
    ELSE [m EXCEPT !.types = [t \in DOMAIN m.types |->
            IF IsSimple(m, t) THEN [m.types[t] EXCEPT !.facets = LooseFacets(m.types[t].facets)] ELSE m.types[t]]]

Describes(m, e) ==
    IF e.elem.n = "" THEN {"no such element"}
    ELSE (IF e.tree.n = e.elem.n /\ e.tree.ns = m.tns THEN {} ELSE {"wrong name of the root"})
         \cup Invalid(m, m.q, m.tns, e.elem.type, e.elem.nil, e.tree)

Faults(m, e) ==
    CASE e.op = "schema" -> IF e.ok THEN {} ELSE {"no valid schema is generated"}
      [] e.op = "document" ->
           LET why == IF e.ok THEN Describes(Loose(m), e) ELSE Describes(m, e)
           IN  CASE e.ok /\ why # {} -> {"accepted although: " \o w : w \in why}
                 [] ~e.ok /\ why = {} -> {"a document the classes describe is not accepted"}
                 [] OTHER -> {}
      [] e.op = "rendered" ->  \* a document rendered from a complete object
           IF e.ok THEN {} ELSE {"a document rendered from a complete object is not accepted"}
      [] e.op = "same" ->      \* the check of a rendered document does not change it
           IF e.ok THEN {} ELSE {"a document is rendered differently with a schema"}

TraceInit == c \in 1..CaseCount /\ i = 0 /\ compiled = FALSE
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
       IN  /\ compiled' = (compiled \/ (e.op = "schema" /\ e.ok))
           /\ Judge(c, i + 1, Faults(Cases[c].model, e))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
