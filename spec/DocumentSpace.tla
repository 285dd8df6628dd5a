--------------------------- MODULE DocumentSpace ---------------------------
(***************************************************************************)
(* All small graphs of schemas which import and include one another (P06),     *)
(* and a client which follows the references of the documents from the WSDL    *)
(* on: it only sees served documents, sees all of them, and comes to an end.   *)
(***************************************************************************)
EXTENDS Documents, Json, TLC

CONSTANTS N

VARIABLES s, todo, got
vars == <<s, todo, got>>

Loc(x) == <<96 + x>>
Tns(kinds, x) == IF kinds[x] THEN "urn:a" ELSE "urn:b"
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Graph(kinds, E) ==
    [schemas |-> [x \in 1..N |-> [loc |-> Loc(x), tns |-> Tns(kinds, x), digest |-> "",
                                  imports |-> Sorted({y \in 1..N : <<x, y>> \in E /\ kinds[x] # kinds[y]}),
                                  includes |-> Sorted({y \in 1..N : <<x, y>> \in E /\ kinds[x] = kinds[y]})]],
     roots |-> <<1>>]
Init ==
    /\ \E kinds \in {f \in [1..N -> BOOLEAN] : f[1]}, E \in SUBSET {p \in (1..N) \X (1..N) : p[1] # p[2]} :
           s = Graph(kinds, E)
    /\ Closure(s, {1}) = 1..N
    /\ todo = Edges(s, 1) /\ got = {}
Next ==
    \E x \in todo :
        /\ got' = got \cup {x}
        /\ todo' = (todo \cup Edges(s, x)) \ got'
        /\ s' = s
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What the client asks for is what the entry serves.
Served == got \cup todo \subseteq Published(s)
Complete == todo # {} \/ got = Published(s)
Report == got # {} \/ PrintT("@@" \o ToJson([schemas |-> [x \in 1..N |-> [a |-> s.schemas[x].tns, im |-> s.schemas[x].imports, inc |-> s.schemas[x].includes]]]))
Ends == <>(todo = {})
=============================================================================
