----------------------------- MODULE ClassModel -----------------------------
(***************************************************************************)
(* Class declarations, objects, documents and the three relations between    *)
(* them the library is about: rendering mirrors an object, parsing recovers   *)
(* it, and the schema accepts exactly the documents of the declarations.      *)
(*                                                                          *)
(* A model m: [types |-> name :> type], a type is                            *)
(*   [kind |-> "simple", type |-> builtin, facets |-> record]                *)
(*   [kind |-> "complex", base |-> name or "", ind |-> "sequence" / "choice" / *)
(*    "all", sns |-> <<>> or <<namespace of its schema>>, fields |-> <<...>>]  *)
(* A field: [py, tag, k |-> "elem"/"list"/"attr"/"ref"/"gref", type, min, max, *)
(*   nil, ns |-> <<>> or <<namespace>>, def |-> value]; max = -1: unbounded    *)
(*   ref: the fields of a group, gref: a global element, qualified always      *)
(* A document is a tree [ns, n, a |-> <<[ns, n, v]...>>, k |-> children,      *)
(*   x |-> text].                                                            *)
(***************************************************************************)
EXTENDS SimpleTypes

XSI == "http://www.w3.org/2001/XMLSchema-instance"

RECURSIVE Fields(_, _)
Fields(m, t) ==
    LET d == m.types[t]
        names == {d.fields[k].py : k \in 1..Len(d.fields)}
    IN  IF d.base = "" THEN d.fields
        ELSE SelectSeq(Fields(m, d.base), LAMBDA f : f.py \notin names) \o d.fields

FieldNames(m, t) == {Fields(m, t)[k].py : k \in 1..Len(Fields(m, t))}

RECURSIVE IsA(_, _, _)
IsA(m, c, t) == c = t \/ (c # "" /\ m.types[c].base # "" /\ IsA(m, m.types[c].base, t))

IsSimple(m, t) == m.types[t].kind = "simple"

\* The namespace of the fields of a type which appears where ns is the namespace.
Context(m, t, ns) == IF m.types[t].sns # <<>> THEN m.types[t].sns[1] ELSE ns
FieldNs(f, ns) == IF f.ns # <<>> THEN f.ns[1] ELSE ns

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(*--------------------------------- documents ---------------------------------*)
IsNilAttr(at) == at.ns = XSI /\ at.n = "nil"
NilValues == {<<116, 114, 117, 101>>, <<49>>}
NotNilValues == {<<102, 97, 108, 115, 101>>, <<48>>}
IsNil(el) == \E k \in 1..Len(el.a) : IsNilAttr(el.a[k]) /\ Trim(el.a[k].v) \in NilValues
\* Attributes which are not for the schema instance (which has four: any other name in its namespace is an attribute nobody declares).
InstanceAttrs == {"nil", "type", "schemaLocation", "noNamespaceSchemaLocation"}
OwnAttrs(el) == SelectSeq(el.a, LAMBDA at : at.ns # XSI \/ at.n \notin InstanceAttrs)
AttrOf(el, name) == SelectSeq(el.a, LAMBDA at : at.ns = "" /\ at.n = name)
Kids(el, name) == SelectSeq(el.k, LAMBDA kid : kid.n = name)

(***************************************************************************)
(* Rendering.                                                               *)
(***************************************************************************)
RECURSIVE Items(_, _, _, _), AttrItems(_, _, _)
\* The elements an object consists of, in order: field, value and namespace.
Items(m, ns0, c, obj) ==
    LET ns == Context(m, c, ns0)
        Of(f) == LET v == obj.f[f.py]
                 IN  CASE f.k \in {"elem", "gref"} -> IF v = None THEN <<>> ELSE <<[f |-> f, v |-> v, ns |-> FieldNs(f, ns)]>>
                       [] f.k = "list" -> [j \in 1..Len(v.v) |-> [f |-> f, v |-> v.v[j], ns |-> FieldNs(f, ns)]]
                       [] f.k = "attr" -> <<>>
                       [] f.k = "ref" -> IF v = None THEN <<>> ELSE Items(m, ns, v.c, v)
        fs == Fields(m, c)
    IN  Concat([j \in 1..Len(fs) |-> Of(fs[j])])
AttrItems(m, c, obj) ==
    LET Of(f) == LET v == obj.f[f.py]
                 IN  CASE f.k = "attr" -> IF v = None THEN <<>> ELSE <<[f |-> f, v |-> v]>>
                       [] f.k = "ref" -> IF v = None THEN <<>> ELSE AttrItems(m, v.c, v)
                       [] OTHER -> <<>>
        fs == Fields(m, c)
    IN  Concat([j \in 1..Len(fs) |-> Of(fs[j])])

RECURSIVE Refused(_, _, _)
\* Rendering of the object has to be refused: a required attribute is missing or a list has a wrong size.
Refused(m, c, obj) ==
    \E j \in 1..Len(Fields(m, c)) :
        LET f == Fields(m, c)[j]
            v == obj.f[f.py]
            Deep(x) == x.t = "obj" /\ Refused(m, x.c, x)
        IN  CASE f.k = "attr" -> v = None /\ f.min > 0
              [] f.k = "elem" -> Deep(v)
              [] f.k \in {"ref", "gref"} -> IF v = None THEN f.min > 0 ELSE Deep(v)
              [] f.k = "list" -> \/ Len(v.v) < f.min
                                 \/ f.max >= 0 /\ Len(v.v) > f.max
                                 \/ \E x \in 1..Len(v.v) : Deep(v.v[x])

Denotes(type, s, v) ==
    IF v = None THEN s = <<>>
    ELSE LET x == ReadBuiltin(type, s)
         IN  x # <<>> /\ (SameValue(x[1], v) \/ (x[1].t = "nan" /\ v.t = "nan"))

RECURSIVE Mirror(_, _, _, _, _)
\* How the content of element el differs from the value v of type t; q: the schema is qualified.
Mirror(m, q, ns, v, el) ==
    IF v = Nil THEN (IF IsNil(el) /\ el.k = <<>> /\ Trim(el.x) = <<>> THEN {} ELSE {"nil is not rendered as xsi:nil: " \o el.n})
    ELSE IF IsNil(el) THEN {"a value is rendered as xsi:nil: " \o el.n}
    ELSE IF v.t # "obj" THEN {"not an object: " \o el.n}
    ELSE
    LET want == Items(m, ns, v.c, v)
        wantA == AttrItems(m, v.c, v)
        has == OwnAttrs(el)
        Same(it, kid) ==
            IF kid.n # it.f.tag THEN {"element " \o kid.n \o " instead of " \o it.f.tag}
            ELSE IF kid.ns # (IF q \/ it.f.k = "gref" THEN it.ns ELSE "") THEN {"wrong namespace of " \o kid.n}
            ELSE IF IsSimple(m, it.f.type)
            THEN IF it.v = Nil THEN (IF IsNil(kid) /\ kid.k = <<>> /\ kid.x = <<>> /\ OwnAttrs(kid) = <<>> THEN {} ELSE {"nil is not rendered as xsi:nil: " \o kid.n})
                 ELSE IF IsNil(kid) THEN {"a value is rendered as xsi:nil: " \o kid.n}
                 ELSE IF kid.k = <<>> /\ OwnAttrs(kid) = <<>> /\ Denotes(m.types[it.f.type].type, kid.x, it.v) THEN {} ELSE {"wrong text of " \o kid.n}
            ELSE Mirror(m, q, it.ns, it.v, kid)
    IN  UNION {
          IF Len(el.k) = Len(want) THEN UNION {Same(want[j], el.k[j]) : j \in 1..Len(want)}
          ELSE {"wrong number of elements in " \o el.n},
          IF Trim(el.x) = <<>> THEN {} ELSE {"text in " \o el.n},
          IF Len(has) = Len(wantA) THEN {} ELSE {"wrong number of attributes of " \o el.n},
          UNION {IF \E x \in 1..Len(has) : has[x].ns = "" /\ has[x].n = wantA[j].f.tag
                                         /\ Denotes(m.types[wantA[j].f.type].type, has[x].v, wantA[j].v)
                 THEN {} ELSE {"attribute " \o wantA[j].f.tag \o " is missing or wrong"} : j \in 1..Len(wantA)}}

(***************************************************************************)
(* Parsing.                                                                 *)
(***************************************************************************)
\* The value an element of simple type has, <<>> if it is to be refused.
ReadSimple(m, t, el) ==
    LET d == m.types[t]
    IN  IF IsNil(el) THEN <<Nil>>
        ELSE IF el.x = <<>> /\ d.type \notin StringTypes THEN <<None>>
        ELSE AcceptText(d.type, d.facets, el.x)

SimpleIs(want, got) == want # <<>> /\ (SameValue(want[1], got) \/ (want[1].t = "nan" /\ got.t = "nan"))

RECURSIVE Recovered(_, _, _, _)
\* How the object differs from what the element el, of complex type t, says.
Recovered(m, t, el, obj) ==
    LET ValueFaults(f, kid, v) ==
            IF IsNil(kid) THEN (IF v = Nil THEN {} ELSE {"nil is not read: " \o f.py})
            ELSE IF IsSimple(m, f.type)
            THEN (IF SimpleIs(ReadSimple(m, f.type, kid), v) THEN {} ELSE {"wrong value of field " \o f.py})
            ELSE IF v.t # "obj" THEN {"no object in field " \o f.py}
            ELSE IF v.c # f.type THEN {"object of another class in field " \o f.py}
            ELSE Recovered(m, f.type, kid, v)
        Of(f) ==
            LET v == obj.f[f.py]
                kids == Kids(el, f.tag)
                at == AttrOf(el, f.tag)
            IN  CASE f.k = "attr" ->
                       IF at = <<>> THEN (IF v = f.def THEN {} ELSE {"an absent attribute is not at its default: " \o f.py})
                       ELSE IF SimpleIs(AcceptText(m.types[f.type].type, m.types[f.type].facets, at[1].v), v) THEN {}
                       ELSE {"wrong value of attribute " \o f.py}
                  [] f.k \in {"elem", "gref"} ->
                       IF kids = <<>> THEN (IF v = f.def THEN {} ELSE {"an absent element is not at its default: " \o f.py})
                       ELSE ValueFaults(f, kids[Len(kids)], v)
                  [] f.k = "list" ->
                       IF v.t # "list" THEN {"no list in field " \o f.py}
                       ELSE IF Len(kids) # Len(v.v) THEN {"wrong number of items in " \o f.py}
                       ELSE UNION {ValueFaults(f, kids[j], v.v[j]) : j \in 1..Len(kids)}
                  [] f.k = "ref" ->
                       IF v.t # "obj" THEN {"no group in field " \o f.py} ELSE Recovered(m, f.type, el, v)
        fs == Fields(m, t)
    IN  UNION {Of(fs[j]) : j \in 1..Len(fs)}

RECURSIVE Unreadable(_, _, _)
\* Why the element, of complex type t, can not be read into an object: its fields would refuse a value.
Unreadable(m, t, el) ==
    LET ValueFaults(f, kid) ==
            IF IsNil(kid) THEN (IF f.nil THEN {} ELSE {"nil: " \o f.py})
            ELSE IF IsSimple(m, f.type) THEN (IF ReadSimple(m, f.type, kid) # <<>> THEN {} ELSE {"text: " \o f.py})
            ELSE Unreadable(m, f.type, kid)
        Of(f) ==
            LET kids == Kids(el, f.tag)
                at == AttrOf(el, f.tag)
            IN  CASE f.k = "attr" ->
                       IF at = <<>> \/ AcceptText(m.types[f.type].type, m.types[f.type].facets, at[1].v) # <<>> THEN {}
                       ELSE {"attribute: " \o f.py}
                  [] f.k = "ref" -> Unreadable(m, f.type, el)
                  [] OTHER -> (IF f.k = "list" /\ f.max >= 0 /\ Len(kids) > f.max THEN {"too many: " \o f.py} ELSE {})
                              \cup UNION {ValueFaults(f, kids[j]) : j \in 1..Len(kids)}
        fs == Fields(m, t)
    IN  UNION {Of(fs[j]) : j \in 1..Len(fs)}

(***************************************************************************)
(* Equality of objects, field by field.                                      *)
(***************************************************************************)
RECURSIVE SameObject(_, _, _)
SameObject(m, a, b) ==
    CASE a.t # b.t -> FALSE
      [] a.t = "obj" -> a.c = b.c /\ \A p \in FieldNames(m, a.c) : SameObject(m, a.f[p], b.f[p])
      [] a.t = "list" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(a.v) : SameObject(m, a.v[j], b.v[j])
      [] a.t = "nan" -> TRUE
      [] OTHER -> SameValue(a, b)

(***************************************************************************)
(* Validity: the documents the declarations describe.                        *)
(***************************************************************************)
SimpleValid(m, t, s) ==
    LET d == m.types[t]
    IN  AcceptText(d.type, d.facets, s) # <<>>

RECURSIVE Invalid(_, _, _, _, _, _)
\* Why the element is not valid as an element of type t ({} if it is): ns is the target namespace.
Invalid(m, q, ns, t, nil, el) ==
    LET attrs == OwnAttrs(el)
        fs == IF IsSimple(m, t) THEN <<>> ELSE Fields(m, t)
        afs == SelectSeq(fs, LAMBDA f : f.k = "attr")
        efs == SelectSeq(fs, LAMBDA f : f.k \in {"elem", "list"})
        Upper(f) == IF f.k = "elem" THEN 1 ELSE f.max
        Named(f, kid) == kid.n = f.tag /\ kid.ns = (IF q THEN ns ELSE "")
        Count(f) == Cardinality({j \in 1..Len(el.k) : Named(f, el.k[j])})
        Fits(f, n) == n >= f.min /\ (Upper(f) = -1 \/ n <= Upper(f))
        AttrFaults ==
            {"attribute " \o attrs[j].n \o " is not declared or not valid" :
                j \in {x \in 1..Len(attrs) : ~\E y \in 1..Len(afs) : attrs[x].ns = "" /\ attrs[x].n = afs[y].tag
                                                                    /\ SimpleValid(m, afs[y].type, attrs[x].v)}}
            \cup {"required attribute " \o afs[y].tag \o " is missing" :
                y \in {x \in 1..Len(afs) : afs[x].min > 0 /\ AttrOf(el, afs[x].tag) = <<>>}}
        NilFaults == IF ~nil /\ (\E k \in 1..Len(el.a) : IsNilAttr(el.a[k])) THEN {"not nillable: " \o el.n} ELSE {}
        InstanceFaults == IF \E k \in 1..Len(el.a) : IsNilAttr(el.a[k]) /\ Trim(el.a[k].v) \notin NilValues \cup NotNilValues
                          THEN {"xsi:nil is no boolean: " \o el.n} ELSE {}
        \* positions of the children as fields, in order
        Index(kid) == LET S == {x \in 1..Len(efs) : Named(efs[x], kid)} IN IF S = {} THEN 0 ELSE MinOf(S)
        idx == [j \in 1..Len(el.k) |-> Index(el.k[j])]
        Content ==
            IF \E j \in 1..Len(el.k) : idx[j] = 0 THEN {"undeclared element in " \o el.n}
            ELSE CASE m.types[t].ind = "sequence" ->
                        (IF \E j \in 1..(Len(el.k) - 1) : idx[j] > idx[j + 1] THEN {"wrong order in " \o el.n} ELSE {})
                        \cup {"wrong number of " \o efs[x].tag : x \in {y \in 1..Len(efs) : ~Fits(efs[y], Count(efs[y]))}}
                   [] m.types[t].ind = "all" ->
                        {"wrong number of " \o efs[x].tag : x \in {y \in 1..Len(efs) : ~Fits(efs[y], Count(efs[y]))}}
                   [] m.types[t].ind = "choice" ->
                        IF efs = <<>> THEN (IF el.k = <<>> THEN {} ELSE {"content of an empty choice"})
                        ELSE IF el.k = <<>> THEN (IF \E x \in 1..Len(efs) : efs[x].min = 0 THEN {} ELSE {"nothing chosen in " \o el.n})
                        ELSE IF \E j \in 1..Len(el.k) : idx[j] # idx[1] THEN {"more than one choice in " \o el.n}
                        ELSE IF Fits(efs[idx[1]], Len(el.k)) THEN {} ELSE {"wrong number of the chosen element in " \o el.n}
        Children == UNION {IF idx[j] = 0 THEN {} ELSE Invalid(m, q, ns, efs[idx[j]].type, efs[idx[j]].nil, el.k[j]) : j \in 1..Len(el.k)}
    IN  NilFaults \cup InstanceFaults \cup AttrFaults \cup
        (IF IsNil(el) THEN (IF el.k = <<>> /\ el.x = <<>> THEN {} ELSE {"nil element with content: " \o el.n})
         ELSE IF IsSimple(m, t)
         THEN (IF el.k = <<>> THEN {} ELSE {"elements in simple content of " \o el.n})
              \cup (IF SimpleValid(m, t, el.x) THEN {} ELSE {"text of " \o el.n \o " is not valid"})
         ELSE (IF el.x = <<>> \/ (efs # <<>> /\ Trim(el.x) = <<>>) THEN {} ELSE {"text in " \o el.n}) \cup Content \cup Children)
=============================================================================
