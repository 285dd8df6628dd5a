------------------------------ MODULE Codegen ------------------------------
(***************************************************************************)
(* Code generated from documents which refer to one another (P20, P21).       *)
(*                                                                          *)
(* A location is [h |-> host ("" for files), p |-> <<segments>>, q |-> query]. *)
(* A reference as written is [abs, root |-> BOOLEAN, h, p, q]: abs means a URL *)
(* with a host, root a path which begins with a slash.                        *)
(*                                                                          *)
(* A world w is                                                             *)
(*   docs: <<[loc, refs |-> <<references to WSDL documents>>,                  *)
(*            schemas |-> <<[ns, simple |-> <<[n, base]>>,                     *)
(*               complex |-> <<[n, base, fields |-> <<[n, t]>>]>>,             *)
(*               elements |-> <<[n, t, anon |-> BOOLEAN, fields]>>,            *)
(*               refs |-> <<[how |-> "import"/"include", ns, at |-> <<>> or    *)
(*                           <<reference>>]>>]>>,                             *)
(*            wsdl |-> [messages |-> <<[n, ns, e]>>,                           *)
(*               portTypes |-> <<[n, ops |-> <<[n, m]>>]>>,                    *)
(*               bindings |-> <<[n, type, ops |-> <<[n, action]>>]>>,          *)
(*               services |-> <<[n, ports |-> <<[n, binding, at]>>]>>]]>>      *)
(*   root: the number of the document given, known: its location is known.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(***************************************************************************)
(* Locations.                                                               *)
(***************************************************************************)
\* A path without the segments "." and "..".
RECURSIVE Normal(_, _)
Normal(done, p) ==
    IF p = <<>> THEN done
    ELSE IF Head(p) = "." THEN Normal(done, Tail(p))
    ELSE IF Head(p) = ".." THEN Normal(IF done = <<>> THEN done ELSE Front(done), Tail(p))
    ELSE Normal(Append(done, Head(p)), Tail(p))
\* What a reference in the document at the location means: never anything but this location matters.
Resolve(base, r) ==
    IF r.abs THEN [h |-> r.h, p |-> Normal(<<>>, r.p), q |-> r.q]
    ELSE [h |-> base.h, p |-> Normal(<<>>, (IF r.root THEN <<>> ELSE Front(base.p)) \o r.p), q |-> r.q]

Docs(w) == 1..Len(w.docs)
At(w, loc) == {d \in Docs(w) : w.docs[d].loc = loc}
Written(w, d) ==
    {w.docs[d].refs[j] : j \in 1..Len(w.docs[d].refs)}
    \cup UNION {{s.refs[j].at[1] : j \in {k \in 1..Len(s.refs) : s.refs[k].at # <<>>}} : s \in {w.docs[d].schemas[k] : k \in 1..Len(w.docs[d].schemas)}}
\* The documents which a document refers to.
Targets(w, d) == UNION {At(w, Resolve(w.docs[d].loc, r)) : r \in Written(w, d)}
RECURSIVE Closure(_, _)
Closure(w, S) ==
    LET T == S \cup UNION {Targets(w, d) : d \in S}
    IN  IF T = S THEN S ELSE Closure(w, T)
Reached(w) == Closure(w, {w.root})
Next1(w, S) == UNION {Targets(w, d) : d \in S} \ S
\* Some document refers, maybe by others, to itself.
Cyclic(w) == \E d \in Reached(w) : d \in Closure(w, Targets(w, d))

(***************************************************************************)
(* Definitions.                                                             *)
(***************************************************************************)
Schemas(w) == UNION {{<<d, k>> : k \in 1..Len(w.docs[d].schemas)} : d \in Reached(w)}
S(w, x) == w.docs[x[1]].schemas[x[2]]
\* The target namespace: a document without one gets the one of the document which includes it.
RECURSIVE NsOf(_, _)
NsOf(w, x) ==
    IF S(w, x).ns # "" THEN S(w, x).ns
    ELSE LET from == {y \in Schemas(w) : \E j \in 1..Len(S(w, y).refs) :
                          LET r == S(w, y).refs[j] IN r.how = "include" /\ r.at # <<>> /\ x[1] \in At(w, Resolve(w.docs[y[1]].loc, r.at[1]))}
         IN  IF from = {} THEN "" ELSE NsOf(w, CHOOSE y \in from : TRUE)
\* The schemas a reference means: the document at the location or, without one, the schemas of the namespace there are.
Meant(w, x, r) ==
    IF r.at # <<>> THEN {<<d, 1>> : d \in At(w, Resolve(w.docs[x[1]].loc, r.at[1]))}
    ELSE {y \in Schemas(w) : y # x /\ S(w, y).ns = r.ns}
MeantBy(w, x, how) ==
    UNION {Meant(w, x, S(w, x).refs[j]) : j \in {k \in 1..Len(S(w, x).refs) : S(w, x).refs[k].how = how}}
\* Schemas can need one another without locations, too.
Needs(w, x) == MeantBy(w, x, "import") \cup MeantBy(w, x, "include")
RECURSIVE AllNeeded(_, _)
AllNeeded(w, X) ==
    LET T == X \cup UNION {Needs(w, x) : x \in X}
    IN  IF T = X THEN X ELSE AllNeeded(w, T)
Circular(w) == \E x \in Schemas(w) : x \in AllNeeded(w, Needs(w, x))

Names(seq) == {seq[j].n : j \in 1..Len(seq)}
Anonymous(s) == {s.elements[j] : j \in {k \in 1..Len(s.elements) : s.elements[k].anon}}
Classes(s) == {[n |-> s.simple[j].n, base |-> s.simple[j].base] : j \in 1..Len(s.simple)}
              \cup {[n |-> s.complex[j].n, base |-> s.complex[j].base] : j \in 1..Len(s.complex)}
              \cup {[n |-> e.n, base |-> ""] : e \in Anonymous(s)}
AllClasses(w) == UNION {Classes(S(w, x)) : x \in Schemas(w)}

\* A class which is defined: e = [n, bases], `classes` are those defined before.
ClassFaults(w, classes, e) ==
    LET mine == {k \in AllClasses(w) : k.n = e.n}
    IN  IF mine = {} THEN {"a class for no type: " \o e.n}
        ELSE IF e.n \in classes THEN {"defined twice: " \o e.n}
        ELSE LET k == CHOOSE k \in mine : TRUE
             IN  (IF k.base = "" \/ k.base \in ToSet(e.bases) THEN {} ELSE {"not derived from its base: " \o e.n})
                 \cup (IF \A b \in ToSet(e.bases) : b = k.base \/ ~\E o \in AllClasses(w) : o.n = b THEN {} ELSE {"derived from another type: " \o e.n})

\* A schema which is built: e = [ns, simple, complex, elements: <<names>>, imports, includes: <<numbers>>]; built: number -> schema.
Which(w, e) ==
    {x \in Schemas(w) : Names(S(w, x).simple) = ToSet(e.simple) /\ Names(S(w, x).complex) = ToSet(e.complex)
                        /\ Names(S(w, x).elements) = ToSet(e.elements)}
SchemaFaults(w, classes, built, e) ==
    LET mine == Which(w, e)
        x == CHOOSE x \in mine : TRUE
        Of(seq) == {built[k] : k \in ToSet(seq) \ {0}}
    IN  IF mine = {} THEN {"a schema with the definitions of no document"}
        ELSE IF x \in {built[k] : k \in 1..Len(built)} THEN {"a schema built twice"}
        ELSE (IF e.ns = NsOf(w, x) THEN {} ELSE {"a schema of another namespace"})
             \cup (IF \A k \in Classes(S(w, x)) : k.n \in classes THEN {} ELSE {"a schema before its classes"})
             \cup (IF 0 \notin ToSet(e.imports) \cup ToSet(e.includes) THEN {} ELSE {"a schema with an unknown one"})
             \cup (IF Of(e.imports) = MeantBy(w, x, "import") THEN {} ELSE {"a schema with other imports"})
             \cup (IF Of(e.includes) = MeantBy(w, x, "include") THEN {} ELSE {"a schema with other includes"})

\* The fields of a type with those of its bases.
RECURSIVE AllFields(_, _)
AllFields(w, n) ==
    LET t == CHOOSE t \in UNION {ToSet(S(w, x).complex) : x \in Schemas(w)} : t.n = n
    IN  (IF t.base = "" THEN <<>> ELSE AllFields(w, t.base)) \o t.fields
\* What the schemas say in the end: e.schemas: <<[simple |-> <<[n, base]>>, complex |-> <<[n, base, fields]>>, elements]>>.
\* A schema may tell the fields of the base again instead of extending it.
Same(w, t, got) == got = t \/ got = [n |-> t.n, base |-> "", fields |-> AllFields(w, t.n)]
ContentFaults(w, built, e) ==
    UNION {IF built[k] = <<0, 0>> THEN {} ELSE
           LET s == S(w, built[k])
               got == e.schemas[k]
           IN  (IF ToSet(got.simple) = ToSet(s.simple) /\ Len(got.simple) = Len(s.simple) THEN {} ELSE {"other simple types"})
               \cup (IF Len(got.complex) = Len(s.complex)
                      /\ \A j \in 1..Len(s.complex) : \E l \in 1..Len(got.complex) : Same(w, s.complex[j], got.complex[l]) THEN {} ELSE {"other complex types"})
               \cup (IF ToSet(got.elements) = ToSet(s.elements) /\ Len(got.elements) = Len(s.elements) THEN {} ELSE {"other elements"})
           : k \in 1..Len(built)}

(***************************************************************************)
(* Services: their parts may be in any of the WSDL documents.                 *)
(***************************************************************************)
Parts(w, part) == UNION {ToSet(w.docs[d].wsdl[part]) : d \in Reached(w)}
PartOf(w, part, n) == CHOOSE x \in Parts(w, part) : x.n = n
PortOf(w, p) ==
    LET b == PartOf(w, "bindings", p.binding)
        t == PartOf(w, "portTypes", b.type)
        Input(n) == PartOf(w, "messages", (CHOOSE o \in ToSet(t.ops) : o.n = n).m).e
    IN  [n |-> p.n, at |-> p.at, ops |-> [j \in 1..Len(b.ops) |-> [n |-> b.ops[j].n, action |-> b.ops[j].action, input |-> Input(b.ops[j].n)]]]
Ports(w) == {PortOf(w, p) : p \in UNION {ToSet(s.ports) : s \in Parts(w, "services")}}
\* A service which is built: e = [n, ns, at, ops: <<[n, action, input]>>]; offered: those there are already.
ServiceFaults(w, offered, e) ==
    LET port == [n |-> e.n, at |-> e.at, ops |-> e.ops]
    IN  (IF port \in Ports(w) THEN {} ELSE {"a service which no document describes"})
        \cup (IF port \in offered THEN {"a service defined twice"} ELSE {})
        \cup (IF e.ns = "urn:wsdl" THEN {} ELSE {"a service of another namespace"})
=============================================================================
