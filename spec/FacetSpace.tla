----------------------------- MODULE FacetSpace -----------------------------
(***************************************************************************)
(* P10 and P17, exhaustively: simple types which are restricted facet by      *)
(* facet, and all the candidates for their values.  The state is the type      *)
(* being declared; for every type the candidates it accepts are reported, to    *)
(* be compared with what fields of the type accept and with the documents the   *)
(* generated schema accepts.                                                  *)
(***************************************************************************)
EXTENDS SimpleTypes, Json

CONSTANT MaxFacets

VARIABLES type, facets
vars == <<type, facets>>

C(x) == [op |-> "cls", neg |-> FALSE, r |-> <<<<x, x>>>>]
Rep(a, min, max) == [op |-> "rep", a |-> <<a>>, min |-> min, max |-> max]
Seq2(a) == [op |-> "seq", a |-> a]
Digit == [op |-> "cls", neg |-> FALSE, r |-> <<<<48, 57>>>>]

N0 == <<48>>
N1 == <<49>>
N2 == <<50>>
Limits == {"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"}
NumericFacets ==
    {[n |-> l, v |-> x] : l \in Limits, x \in {N0, N1, N2}}
    \cup {[n |-> "totalDigits", v |-> k] : k \in {1, 2}}
    \cup {[n |-> "enumeration", v |-> x] : x \in {<<N1>>, <<N0, N2, <<49, 50>>>>}}
    \cup {[n |-> "pattern", v |-> Rep(Digit, 1, 1)]}
    \cup (IF type = "decimal" THEN {[n |-> "fractionDigits", v |-> k] : k \in {0, 1}} ELSE {})
StringFacets ==
    {[n |-> l, v |-> k] : l \in {"length", "minLength", "maxLength"}, k \in {0, 1, 2}}
    \cup {[n |-> "whiteSpace", v |-> w] : w \in {"preserve", "replace", "collapse"}}
    \cup {[n |-> "enumeration", v |-> x] : x \in {<<<<97>>>>, <<<<97, 98>>, <<>>>>, <<<<98>>, <<97, 32, 97>>>>}}
    \cup {[n |-> "pattern", v |-> p] : p \in {Rep(C(97), 0, -1), Seq2(<<C(97), Rep(C(98), 0, 1)>>)}}

\* 0 to 2 by halves, their neighbours, numbers of more digits
Numbers == {<<45, 49>>, N0, N1, N2, <<51>>, <<49, 50>>, <<49, 48, 48>>}
           \cup (IF type = "decimal" THEN {<<48, 46, 53>>, <<49, 46, 53>>, <<49, 46, 48, 53>>, <<50, 46, 53>>, <<45, 48, 46, 53>>} ELSE {})
Letters == {97, 98, 32}
Words == UNION {[1..k -> Letters] : k \in 0..3} \cup {<<97, 9>>, <<10, 97, 98>>, <<97, 9, 97>>}
Candidates == IF type = "string" THEN Words ELSE Numbers

AsSeq(w) == [k \in 1..Len(w) |-> w[k]]
Accepted == {AsSeq(w) : w \in {x \in Candidates : AcceptText(type, facets, x) # <<>>}}
Refused == {AsSeq(w) : w \in Candidates} \ Accepted

Init == type \in {"string", "integer", "decimal"} /\ facets = <<>>
Next == /\ Cardinality(DOMAIN facets) < MaxFacets
        /\ \E f \in (IF type = "string" THEN StringFacets ELSE NumericFacets) :
              f.n \notin DOMAIN facets /\ facets' = (f.n :> f.v) @@ facets
        /\ UNCHANGED type
Spec == Init /\ [][Next]_vars

Reported == PrintT("@@" \o ToJson([type |-> type, facets |-> facets, yes |-> Accepted, no |-> Refused]))

(* A restriction never accepts what the type it restricts refuses. *)
Narrowing == [][\A w \in Candidates :
                   ("whiteSpace" \in DOMAIN facets <=> "whiteSpace" \in DOMAIN facets')
                   => (AcceptText(type, facets', w) # <<>> => AcceptText(type, facets, w) # <<>>)]_vars
=============================================================================
