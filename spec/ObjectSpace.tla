----------------------------- MODULE ObjectSpace -----------------------------
(***************************************************************************)
(* Bounded exploration of Objects.tla: two classes (one extends the other,   *)
(* refers to itself and contains a group), all operations from all heaps      *)
(* which Depth - 1 operations on at most MaxObjects objects can produce.      *)
(* One history for each transition is reported and replayed by the check.     *)
(***************************************************************************)
EXTENDS Objects, Json

CONSTANTS Depth, MaxObjects

VARIABLES heap, hist
vars == <<heap, hist>>

F(py, k, type, min, max, nil, def) ==
    [py |-> py, tag |-> py, k |-> k, type |-> type, min |-> min, max |-> max, nil |-> nil, ns |-> <<>>, def |-> def]
C(base, fields) == [kind |-> "complex", base |-> base, ind |-> "sequence", sns |-> <<>>, fields |-> fields]
Str(s) == [t |-> "str", s |-> s]
M == [q |-> FALSE, tns |-> "urn:t", types |-> [
        Txt |-> [kind |-> "simple", type |-> "string", facets |-> [maxLength |-> 2]],
        Num |-> [kind |-> "simple", type |-> "int", facets |-> [minInclusive |-> <<48>>]],
        G |-> C("", <<F("g1", "elem", "Txt", 1, 1, FALSE, None)>>),
        A |-> C("", <<F("n", "attr", "Num", 0, 1, FALSE, None), F("s", "elem", "Txt", 1, 1, TRUE, Str(<<120>>)),
                      F("l", "list", "Num", 1, 2, TRUE, None), F("g", "ref", "G", 0, 1, FALSE, None),
                      F("child", "elem", "A", 0, 1, FALSE, None)>>),
        B |-> C("A", <<F("cs", "list", "A", 0, 1, FALSE, None)>>)]]

Text(s) == [t |-> "val", py |-> "str", lit |-> s]
IntVal(s) == [t |-> "val", py |-> "int", lit |-> s]
TextNum(s) == [t |-> "val", py |-> "text", lit |-> s]
None0 == [t |-> "none"]
NilG == [t |-> "nil"]
Ref(id) == [t |-> "ref", id |-> id]
Seq0(v) == [t |-> "seq", v |-> v]
\* ab, abc, 1, 2, -1, x
Ab == Text(<<97, 98>>)
Abc == Text(<<97, 98, 99>>)
I1 == IntVal(<<49>>)
I2 == IntVal(<<50>>)
Neg1 == IntVal(<<45, 49>>)
X == TextNum(<<120>>)
Bad == [t |-> "val", py |-> "bad", lit |-> <<>>]

Leaf(n, x) == [ns |-> "", n |-> n, a |-> <<>>, k |-> <<>>, x |-> x]
Doc(ls) == [ns |-> "urn:t", n |-> "root", x |-> <<>>, a |-> <<[ns |-> "", n |-> "n", v |-> <<49>>]>>,
            k |-> <<Leaf("s", <<97>>)>> \o [j \in 1..Len(ls) |-> Leaf("l", ls[j])] \o <<Leaf("g1", <<98>>)>>
                  \o <<[ns |-> "", n |-> "child", a |-> <<>>, x |-> <<>>, k |-> <<Leaf("s", <<99>>)>>]>>]

RECURSIVE Reach(_, _)
Reach(h, id) == \* the objects an object consists of
    LET refs(v) == CASE v.t = "ref" -> {v.id}
                     [] v.t = "list" -> {v.v[j].id : j \in {y \in 1..Len(v.v) : v.v[y].t = "ref"}}
                     [] OTHER -> {}
    IN  {id} \cup UNION {UNION {Reach(h, x) : x \in refs(h[id].f[p])} : p \in DOMAIN h[id].f}

E(op) == [op |-> op, c |-> "", kw |-> <<>>, tree |-> Leaf("", <<>>), id |-> 0, py |-> "", g |-> None0, items |-> <<>>, lo |-> 0, hi |-> 0]
New(c, kw) == [E("new") EXCEPT !.c = c, !.kw = kw]
Set(id, py, g) == [E("set") EXCEPT !.id = id, !.py = py, !.g = g]
Lst(id, op, py, items, lo, hi) == [E(op) EXCEPT !.id = id, !.py = py, !.items = items, !.lo = lo, !.hi = hi]

Room(h, n) == Len(h) + n <= MaxObjects
Constructions(h) ==
    (IF Room(h, 2) THEN {New(c, <<>>) : c \in {"A", "B"}} \cup
        {New("A", <<[py |-> "s", g |-> Abc]>>), New("A", <<[py |-> "l", g |-> Seq0(<<I1, I2>>)], [py |-> "s", g |-> NilG]>>),
         New("B", <<[py |-> "l", g |-> Seq0(<<I1, X>>)]>>), New("A", <<[py |-> "zz", g |-> I1]>>)} ELSE {})
    \cup (IF Room(h, 4) THEN {[E("parse") EXCEPT !.c = "A", !.tree = Doc(<< <<49>>, <<50>> >>)],
                              [E("parse") EXCEPT !.c = "B", !.tree = Doc(<< <<49>>, <<50>>, <<51>> >>)]} ELSE {})
OnA(h, id) ==
    {Set(id, "s", g) : g \in {Ab, Abc, NilG, None0, Bad}} \cup {Set(id, "n", g) : g \in {I1, Neg1, NilG}}
    \cup {Set(id, "g", Ref(x)) : x \in 1..Len(h)} \cup {Set(id, "g", None0), Set(id, "zz", None0)}
    \cup {Set(id, "child", Ref(x)) : x \in {y \in 1..Len(h) : id \notin Reach(h, y)}}
    \cup {Set(id, "l", g) : g \in {Seq0(<<I1>>), Seq0(<<I1, I2, I1>>), Seq0(<<I1, X>>), None0, Ab}}
    \cup {[E("render") EXCEPT !.id = id]}
    \cup LET n == Len(h[id].f.l.v) IN
         {Lst(id, op, "l", <<g>>, n, n) : op \in {"append", "insert"}, g \in {I1, X, NilG}}
         \cup {Lst(id, op, "l", <<I2, g>>, 0, 0) : op \in {"extend", "iadd"}, g \in {I1, Neg1}}
         \cup {Lst(id, "insert", "l", <<I2>>, 0, 0), Lst(id, "clear", "l", <<>>, 0, 0), Lst(id, "imul", "l", <<>>, 2, 0),
               Lst(id, "reverse", "l", <<>>, 0, 0), Lst(id, "slice", "l", <<I2, I1, I1>>, 0, n), Lst(id, "slice", "l", <<X>>, 0, 0)}
         \cup (IF n > 0 THEN {Lst(id, "setitem", "l", <<I2>>, 0, 1), Lst(id, "setitem", "l", <<Neg1>>, n - 1, n),
                              Lst(id, "delete", "l", <<>>, 0, 1), Lst(id, "pop", "l", <<>>, n - 1, n)} ELSE {})
OnB(h, id) ==
    {Lst(id, "append", "cs", <<Ref(x)>>, 0, 0) : x \in {y \in 1..Len(h) : id \notin Reach(h, y)}}
    \cup {Set(id, "cs", Seq0(<<>>))}
OnG(h, id) == {Set(id, "g1", g) : g \in {Ab, Abc}}
Operations(h) ==
    Constructions(h)
    \cup UNION {IF h[id].c = "G" THEN OnG(h, id) ELSE OnA(h, id) \cup (IF h[id].c = "B" THEN OnB(h, id) ELSE {}) : id \in 1..Len(h)}

Init == heap = <<>> /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E e \in Operations(heap) :
        /\ heap' = Effect(M, heap, e).h
        /\ hist' = Append(hist, e)
        /\ PrintT("@@" \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars
Seen == heap
\* The first history of a heap is one of the shortest.
Typed == WellTyped(M, heap)
\* An operation changes at most one object there was, and only the one it is about.
OneObject ==
    [][\A id \in 1..Len(heap) : heap'[id] = heap[id] \/ hist'[Len(hist')].id = id]_vars
Kept == [][Len(heap') >= Len(heap) /\ \A id \in 1..Len(heap) : heap'[id].c = heap[id].c]_vars
ModelReport == PrintT("@@" \o ToJson([model |-> M]))
ASSUME ModelReport
=============================================================================
