----------------------------- MODULE CodeTrace -----------------------------
(***************************************************************************)
(* P18: code generated from a schema document describes the documents of the *)
(* schema.  The model is what the schema document means (it has been written  *)
(* from the model).  Events:                                                 *)
(*   module:   the code has been generated and imported; its schema object     *)
(*   schema:   the classes have been converted back to a schema, and compiled   *)
(*   document: a document and whether the regenerated schema accepts it         *)
(*   parse:    a document has been parsed with the class of a global element    *)
(*   render:   the object which has been parsed is rendered again               *)
(***************************************************************************)
EXTENDS ClassModel, TraceBase

VARIABLES c, i, compiled
vars == <<c, i, compiled>>

S == INSTANCE SchemaTrace

\* Which element can stand for which other one (head: "namespace name").
SameSubstitutes(e, cs) == {e.substitutes[k] : k \in 1..Len(e.substitutes)} = {cs.substitutes[k] : k \in 1..Len(cs.substitutes)}
SameNames(e, cs) == {e.elems[k] : k \in 1..Len(e.elems)} = {cs.elements[k].n : k \in 1..Len(cs.elements)}

\* A value of simple type at the root of a document.
RootFaults(m, e) ==
    IF e.obj = Nil THEN (IF IsNil(e.tree) THEN {} ELSE {"nil is read from a document with a value"})
    ELSE IF IsNil(e.tree) THEN {"nil is not read"}
    ELSE IF IsSimple(m, e.elem.type)
    THEN (IF SimpleIs(ReadSimple(m, e.elem.type, e.tree), e.obj) THEN {} ELSE {"wrong value of the document"})
    ELSE IF e.obj.t # "obj" THEN {"no object of the class of the element"}
    ELSE Recovered(m, e.elem.type, e.tree, e.obj)

CodeFaults(cs, e) ==
    LET m == cs.model
    IN  CASE e.op = "module" ->
               IF ~e.ok THEN {"the generated code can not be imported"}
               ELSE (IF e.tns = m.tns THEN {} ELSE {"the schema has another target namespace"})
                    \cup (IF SameNames(e, cs) THEN {} ELSE {"the schema has other global elements"})
          [] e.op = "parse" ->
               IF e.ok THEN RootFaults(m, e)
               ELSE IF S!Describes(S!Loose(m), e) = {} /\ S!Describes(m, e) = {} THEN {"a document of the schema is not parsed"} ELSE {}
          [] e.op = "render" ->
               IF ~e.ok THEN (IF Refused(m, e.obj.c, e.obj) THEN {} ELSE {"an object which has been parsed is not rendered"})
               ELSE Mirror(m, m.q, m.tns, e.obj, e.tree)
          [] e.op = "schema" ->
               S!Faults(m, e) \cup (IF e.ok /\ ~SameSubstitutes(e, cs) THEN {"the schema has other substitution groups"} ELSE {})
          [] OTHER -> S!Faults(m, e)

TraceInit == c \in 1..CaseCount /\ i = 0 /\ compiled = FALSE
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ UNCHANGED compiled
    /\ Judge(c, i + 1, CodeFaults(Cases[c], Cases[c].events[i + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
