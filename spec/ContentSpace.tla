----------------------------- MODULE ContentSpace -----------------------------
(***************************************************************************)
(* P17, exhaustively: all classes with one or two fields, and all documents   *)
(* with up to MaxKids children.  The state is the class being declared field   *)
(* by field; for every class the documents its declarations describe are       *)
(* reported, to be compared with what the generated schema accepts.            *)
(* A document is <<present attributes, kids>>, a kid is a name and whether it   *)
(* is nil: "a", "an", "b", "bn", "z".                                          *)
(***************************************************************************)
EXTENDS ClassModel, Json

CONSTANTS MaxKids, MaxFields

VARIABLES ind, q, fields
vars == <<ind, q, fields>>

Names == <<"a", "b", "c">>
Occurrences == {<<"elem", 0, 1>>, <<"elem", 1, 1>>, <<"list", 0, -1>>, <<"list", 1, -1>>, <<"list", 2, -1>>,
                <<"list", 0, 1>>, <<"list", 0, 2>>, <<"list", 1, 2>>, <<"list", 2, 2>>, <<"list", 1, 3>>}
Field(name, o, nil) ==
    [py |-> name, tag |-> name, k |-> o[1], type |-> "s", min |-> o[2], max |-> o[3], nil |-> nil, ns |-> <<>>, def |-> None]
Attr(name, min) == Field(name, <<"attr", min, 1>>, FALSE)
NewFields(name) ==
    {Field(name, o, nil) : o \in {p \in Occurrences : ind # "all" \/ p[1] = "elem"}, nil \in BOOLEAN}
    \cup {Attr(name, 0), Attr(name, 1)}

Model == [types |-> [t \in {"s", "C"} |->
            IF t = "s" THEN [kind |-> "simple", type |-> "string", facets |-> <<>>]
            ELSE [kind |-> "complex", base |-> "", ind |-> ind, sns |-> <<"urn:t">>, fields |-> fields]],
          tns |-> "urn:t", q |-> q]

KidNames == {Names[k] : k \in 1..Len(fields)} \cup {"z"}
KidSet == {<<n, nil>> : n \in KidNames, nil \in BOOLEAN}
Words == UNION {[1..n -> KidSet] : n \in 0..MaxKids}
Kid(k) == [ns |-> IF q THEN "urn:t" ELSE "", n |-> k[1], k |-> <<>>, x |-> <<>>,
           a |-> IF k[2] THEN <<[ns |-> XSI, n |-> "nil", v |-> <<49>>]>> ELSE <<>>]
AttrNames == {fields[k].tag : k \in {j \in 1..Len(fields) : fields[j].k = "attr"}}
AttrSets == SUBSET (AttrNames \cup {"z"})
AttrSeq(A) == SelectSeq([k \in 1..4 |-> [ns |-> "", n |-> (Names \o <<"z">>)[k], v |-> <<120>>]], LAMBDA at : at.n \in A)
Tree(A, w) == [ns |-> "urn:t", n |-> "root", x |-> <<>>, a |-> AttrSeq(A), k |-> [j \in 1..Len(w) |-> Kid(w[j])]]

Key(A, w) == [a |-> [j \in 1..Len(AttrSeq(A)) |-> AttrSeq(A)[j].n], k |-> [j \in 1..Len(w) |-> w[j][1] \o (IF w[j][2] THEN "n" ELSE "")]]
Described == {Key(d[1], d[2]) : d \in {x \in AttrSets \X Words :
                Invalid(Model, q, "urn:t", "C", FALSE, Tree(x[1], x[2])) = {}}}

Relevant == Len(fields) > 0 /\ (ind = "choice" => \E k \in 1..Len(fields) : fields[k].k # "attr")
Report == ~Relevant \/ PrintT("@@" \o ToJson([ind |-> ind, q |-> q, fields |-> fields, ok |-> Described]))

Init == ind \in {"sequence", "choice", "all"} /\ q \in BOOLEAN /\ fields = <<>>
Next == /\ Len(fields) < MaxFields
        /\ \E f \in NewFields(Names[Len(fields) + 1]) : fields' = Append(fields, f)
        /\ UNCHANGED <<ind, q>>
Spec == Init /\ [][Next]_vars
Reported == Report
=============================================================================
