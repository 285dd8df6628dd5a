---------------------------- MODULE CodegenTrace ----------------------------
(***************************************************************************)
(* Traces of code generation and of the import of the generated module        *)
(* (P20, P21).  Events: "open": a document is read (loc); "generated": code    *)
(* has been generated (ok); "class", "schema", "service": the module defines   *)
(* one;                                                                      *)
(* "imported" (ok); "content": what the schemas say; "quiet": something that    *)
(* must not open anything has come to an end (opened: <<locations>>).          *)
(***************************************************************************)
EXTENDS Codegen, TraceBase

VARIABLES c, i, opened, classes, built, offered
vars == <<c, i, opened, classes, built, offered>>

TraceInit ==
    /\ c \in 1..CaseCount /\ i = 1 /\ classes = {} /\ built = <<>> /\ offered = {}
    /\ opened = IF Cases[c].world.given THEN {Cases[c].world.root} ELSE {}
Frontier(w) == IF opened = {} THEN {w.root} ELSE Next1(w, opened)
\* The generator does not know where a document it was given is from: it may read it once more.
Again(w, d, n) == w.given /\ d = w.root /\ ~\E j \in 1..(n - 1) : Cases[c].events[j].op = "open" /\ Cases[c].events[j].loc = w.docs[d].loc
TraceNext ==
    LET cs == Cases[c]
        w == cs.world
        e == cs.events[i]
    IN  /\ i <= Len(cs.events)
        /\ i' = i + 1 /\ c' = c
        /\ offered' = IF e.op = "service" THEN offered \cup {[n |-> e.n, at |-> e.at, ops |-> e.ops]} ELSE offered
        /\ CASE e.op = "open" ->
                  /\ LET at == At(w, e.loc)
                     IN  /\ Judge(c, i, IF at = {} THEN {"opened something nobody refers to"}
                                        ELSE LET d == CHOOSE d \in at : TRUE
                                             IN  IF d \in opened THEN (IF Again(w, d, i) THEN {} ELSE {"opened twice"})
                                                 ELSE IF d \notin Frontier(w) THEN {"opened before anything refers to it"} ELSE {})
                         /\ opened' = opened \cup at
                  /\ UNCHANGED <<classes, built>>
             [] e.op = "generated" ->
                  /\ Judge(c, i, (IF e.ok THEN {} ELSE {"no code"})
                                 \cup (IF e.ok => Frontier(w) = {} THEN {} ELSE {"a document has not been read"}))
                  /\ UNCHANGED <<opened, classes, built>>
             [] e.op = "class" ->
                  /\ Judge(c, i, ClassFaults(w, classes, e))
                  /\ classes' = classes \cup {e.n}
                  /\ UNCHANGED <<opened, built>>
             [] e.op = "schema" ->
                  /\ Judge(c, i, SchemaFaults(w, classes, built, e))
                  /\ built' = Append(built, IF Which(w, e) = {} THEN <<0, 0>> ELSE CHOOSE x \in Which(w, e) : TRUE)
                  /\ UNCHANGED <<opened, classes>>
             [] e.op = "service" ->
                  /\ Judge(c, i, ServiceFaults(w, offered, e))
                  /\ UNCHANGED <<opened, classes, built>>
             [] e.op = "imported" ->
                  \* Schemas which need one another are not supported.
                  /\ Judge(c, i, IF Circular(w) THEN {}
                                 ELSE IF ~e.ok THEN {"the module cannot be imported"}
                                 ELSE (IF classes = {k.n : k \in AllClasses(w)} THEN {} ELSE {"a class is missing"})
                                      \cup (IF {built[k] : k \in 1..Len(built)} = Schemas(w) THEN {} ELSE {"a schema is missing"})
                                      \cup (IF offered = Ports(w) THEN {} ELSE {"a service is missing"}))
                  /\ UNCHANGED <<opened, classes, built>>
             [] e.op = "content" ->
                  /\ Judge(c, i, ContentFaults(w, built, e))
                  /\ UNCHANGED <<opened, classes, built>>
             [] e.op = "quiet" ->
                  /\ Judge(c, i, (IF e.opened = <<>> THEN {} ELSE {"opened something: " \o e.what})
                                 \cup (IF e.ok THEN {} ELSE {e.what}))
                  /\ UNCHANGED <<opened, classes, built>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("distinct"))
=============================================================================
