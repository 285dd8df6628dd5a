---------------------------- MODULE CodegenSpace ----------------------------
(***************************************************************************)
(* All small structures which code is generated from (P20, P21), each in the   *)
(* listing order 1..N (so all listing orders up to the names):                 *)
(*   "types": every acyclic function of bases; "schemas": every acyclic graph   *)
(*   of schemas in one document; "docs": every graph of documents, cyclic or    *)
(*   not, of two namespaces, with every layout of locations.                   *)
(* Design: defining or reading what is needed first, each thing once, comes to   *)
(* an end with everything reached and nothing before what it needs.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Mode, N, Layouts

VARIABLES g, done, order
vars == <<g, done, order>>
Nodes == 1..N

Needed(h, x) == {y \in Nodes : <<x, y>> \in h.edges}
RECURSIVE Reach(_, _)
Reach(h, X) == LET Y == X \cup UNION {Needed(h, x) : x \in X} IN IF Y = X THEN X ELSE Reach(h, Y)
Acyclic(h) == \A x \in Nodes : x \notin Reach(h, Needed(h, x))

Plain == [x \in Nodes |-> FALSE]
Flat == [x \in Nodes |-> "flat"]
Graphs ==
    CASE Mode = "types" ->
            {h \in {[edges |-> {<<x, f[x]>> : x \in {y \in Nodes : f[y] # 0}}, ns |-> Plain, at |-> Flat] : f \in [Nodes -> 0..N]} : Acyclic(h)}
      [] Mode = "schemas" ->
            {h \in {[edges |-> E, ns |-> Plain, at |-> Flat] : E \in SUBSET {p \in Nodes \X Nodes : p[1] # p[2]}} : Acyclic(h)}
      [] Mode = "docs" ->
            {h \in {[edges |-> E, ns |-> k, at |-> l] :
                       E \in SUBSET {p \in Nodes \X Nodes : p[1] # p[2]},
                       k \in {f \in [Nodes -> BOOLEAN] : ~f[1]}, l \in [Nodes -> Layouts]} :
                Reach(h, {1}) = Nodes /\ \A p \in h.edges : h.at[p[1]] = "url" => h.at[p[2]] = "url"}
Init == g \in Graphs /\ done = {} /\ order = <<>>
\* "docs": a document may be read when it is the first or one which has been read refers to it;
\* otherwise a definition may be made when all it needs is defined.
Able(x) ==
    IF Mode = "docs" THEN IF done = {} THEN x = 1 ELSE \E y \in done : x \in Needed(g, y)
    ELSE Needed(g, x) \subseteq done
\* In listing order, as far as it is possible.
Next ==
    LET able == {x \in Nodes \ done : Able(x)}
        x == CHOOSE y \in able : \A z \in able : y <= z
    IN  able # {} /\ done' = done \cup {x} /\ order' = Append(order, x) /\ g' = g
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Once == Cardinality(done) = Len(order)
InOrder == Mode = "docs" \/ \A k \in 1..Len(order) : Needed(g, order[k]) \subseteq {order[j] : j \in 1..(k - 1)}
Complete == ENABLED Next \/ done = Nodes
Ends == <>(done = Nodes)
Listed(X) == SetToSortSeq(X, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Report == done # {} \/ PrintT("@@" \o ToJson([edges |-> Listed(g.edges), ns |-> g.ns, at |-> g.at]))
=============================================================================
