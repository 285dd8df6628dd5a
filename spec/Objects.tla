------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* P15 and P16: objects of declared classes as a heap.                       *)
(* A heap is a sequence of objects [c |-> class, f |-> [field |-> value]];    *)
(* a value is a simple value, [t |-> "ref", id], or [t |-> "list", v].        *)
(* Effect(m, h, e) is what an operation does: whether it is accepted, and the *)
(* heap after it.  A refused operation leaves the heap as it was, an accepted *)
(* one changes the one field of the one object it is about, or adds objects.  *)
(***************************************************************************)
EXTENDS ClassModel

RefTo(id) == [t |-> "ref", id |-> id]
ListOf(v) == [t |-> "list", v |-> v]

FieldOf(m, c, py) == LET fs == Fields(m, c) IN fs[CHOOSE k \in 1..Len(fs) : fs[k].py = py]

(***************************************************************************)
(* What a field (or an item of a repeated element) makes of what it is given: *)
(* <<>> if it is refused.  g is [t |-> "ref", id], [t |-> "nil"],             *)
(* [t |-> "none"], [t |-> "val", py, lit] (see Given) or [t |-> "held", v].   *)
(***************************************************************************)
AcceptItem(m, h, f, g) ==
    CASE g.t = "nil" -> IF f.nil /\ f.k \in {"elem", "list"} THEN <<Nil>> ELSE <<>>
      [] g.t = "none" -> <<None>>
      [] g.t = "ref" -> IF ~IsSimple(m, f.type) /\ IsA(m, h[g.id].c, f.type) THEN <<RefTo(g.id)>> ELSE <<>>
      [] g.t = "held" -> <<g.v>>                    \* the value of an item of the same field of an object
      [] g.t = "val" -> IF IsSimple(m, f.type) THEN Given(m.types[f.type].type, m.types[f.type].facets, g) ELSE <<>>
      [] OTHER -> <<>>

RECURSIVE AcceptItems(_, _, _, _)
AcceptItems(m, h, f, gs) ==
    IF gs = <<>> THEN << <<>> >>
    ELSE LET v == AcceptItem(m, h, f, gs[1])
             r == AcceptItems(m, h, f, Tail(gs))
         IN  IF v = <<>> \/ r = <<>> THEN <<>> ELSE << v \o r[1] >>

WithinLimit(f, items) == f.max = -1 \/ Len(items) <= f.max

\* A whole value for a field: a repeated element wants a sequence of items.
AcceptField(m, h, f, g) ==
    IF f.k # "list" THEN (IF g.t = "seq" THEN <<>> ELSE AcceptItem(m, h, f, g))
    ELSE IF g.t = "none" THEN <<ListOf(<<>>)>>
    ELSE IF g.t # "seq" THEN <<>>
    ELSE LET r == AcceptItems(m, h, f, g.v)
         IN  IF r = <<>> \/ ~WithinLimit(f, r[1]) THEN <<>> ELSE <<ListOf(r[1])>>

UndecidedItem(m, f, g) ==
    /\ g.t = "val" /\ IsSimple(m, f.type)
    /\ Undecided(m.types[f.type].type, m.types[f.type].facets, g)

(***************************************************************************)
(* Construction.  Objects are numbered in the order of their fields.          *)
(***************************************************************************)
Put(h, id, py, v) == [h EXCEPT ![id].f[py] = v]

Blank(m, c) == [c |-> c, f |-> [p \in FieldNames(m, c) |-> None]]

RECURSIVE Construct(_, _, _, _)
\* A new object of class c; kw is a sequence of [py, g].  The groups which are not given are new objects, too.
Construct(m, h, c, kw) ==
    LET id == Len(h) + 1
        KwOf(py) == SelectSeq(kw, LAMBDA x : x.py = py)
        Step(acc, f) ==
            IF KwOf(f.py) # <<>> THEN Put(acc, id, f.py, AcceptField(m, h, f, KwOf(f.py)[1].g)[1])
            ELSE CASE f.k = "list" -> Put(acc, id, f.py, ListOf(<<>>))
                   [] f.k = "ref" -> Put(Construct(m, acc, f.type, <<>>), id, f.py, RefTo(Len(acc) + 1))
                   [] OTHER -> Put(acc, id, f.py, f.def)
    IN  FoldLeft(Step, Append(h, Blank(m, c)), Fields(m, c))

RECURSIVE Build(_, _, _, _)
\* A new object of type t from the (readable) element el.
Build(m, h, t, el) ==
    LET id == Len(h) + 1
        AddKid(acc, f, kid) == \* << heap, value >>
            IF IsNil(kid) THEN <<acc, Nil>>
            ELSE IF IsSimple(m, f.type) THEN <<acc, ReadSimple(m, f.type, kid)[1]>>
            ELSE <<Build(m, acc, f.type, kid), RefTo(Len(acc) + 1)>>
        Step(acc, f) ==
            LET kids == Kids(el, f.tag)
                at == AttrOf(el, f.tag)
            IN  CASE f.k = "attr" ->
                       Put(acc, id, f.py, IF at = <<>> THEN f.def
                                          ELSE AcceptText(m.types[f.type].type, m.types[f.type].facets, at[1].v)[1])
                  [] f.k = "elem" ->
                       IF kids = <<>> THEN Put(acc, id, f.py, f.def)
                       ELSE LET r == AddKid(acc, f, kids[Len(kids)]) IN Put(r[1], id, f.py, r[2])
                  [] f.k = "list" ->
                       LET r == FoldLeft(LAMBDA a, kid : LET x == AddKid(a[1], f, kid) IN <<x[1], Append(a[2], x[2])>>,
                                         <<acc, <<>> >>, kids)
                       IN  Put(r[1], id, f.py, ListOf(r[2]))
                  [] f.k = "ref" -> Put(Build(m, acc, f.type, el), id, f.py, RefTo(Len(acc) + 1))
    IN  FoldLeft(Step, Append(h, Blank(m, t)), Fields(m, t))

\* A deep copy of an object: all the objects it consists of once more, referring to one another as they do.
RefsIn(v) == IF v.t = "ref" THEN <<v.id>>
             ELSE IF v.t = "list" THEN FoldLeft(LAMBDA a, x : IF x.t = "ref" THEN Append(a, x.id) ELSE a, <<>>, v.v)
             ELSE <<>>
RECURSIVE PartsOf(_, _, _, _)
PartsOf(m, h, seen, id) ==
    IF \E k \in 1..Len(seen) : seen[k] = id THEN seen
    ELSE FoldLeft(LAMBDA acc, f : FoldLeft(LAMBDA a, x : PartsOf(m, h, a, x), acc, RefsIn(h[id].f[f.py])),
                  Append(seen, id), Fields(m, h[id].c))
Copied(m, h, id) ==
    LET parts == PartsOf(m, h, <<>>, id)
        New(x) == Len(h) + (CHOOSE k \in 1..Len(parts) : parts[k] = x)
        Renamed(v) == CASE v.t = "ref" -> RefTo(New(v.id))
                        [] v.t = "list" -> ListOf([j \in 1..Len(v.v) |-> IF v.v[j].t = "ref" THEN RefTo(New(v.v[j].id)) ELSE v.v[j]])
                        [] OTHER -> v
    IN  h \o [k \in 1..Len(parts) |-> [c |-> h[parts[k]].c, f |-> [p \in DOMAIN h[parts[k]].f |-> Renamed(h[parts[k]].f[p])]]]

RECURSIVE Deref(_, _)
\* The value with the objects it refers to.
Deref(h, v) ==
    CASE v.t = "ref" -> [t |-> "obj", c |-> h[v.id].c, f |-> [p \in DOMAIN h[v.id].f |-> Deref(h, h[v.id].f[p])]]
      [] v.t = "list" -> ListOf([j \in 1..Len(v.v) |-> Deref(h, v.v[j])])
      [] OTHER -> v

(***************************************************************************)
(* The list operations: what becomes of the items s.  Positions lo, hi are   *)
(* those of Python slices without a step (0 <= lo <= hi <= Len(s)).           *)
(***************************************************************************)
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN <<>> ELSE s \o Times(s, n - 1)
Growing == {"append", "extend", "iadd", "insert", "setitem", "slice"}
Shrinking == {"delete", "pop", "clear", "remove", "reverse", "imul", "step"}
AfterList(e, s, items) ==
    CASE e.op \in {"append", "extend", "iadd"} -> s \o items
      [] e.op = "insert" -> SubSeq(s, 1, e.lo) \o items \o SubSeq(s, e.lo + 1, Len(s))
      [] e.op \in {"setitem", "slice"} -> SubSeq(s, 1, e.lo) \o items \o SubSeq(s, e.hi + 1, Len(s))
      [] e.op \in {"delete", "pop", "remove"} -> SubSeq(s, 1, e.lo) \o SubSeq(s, e.hi + 1, Len(s))
      [] e.op = "clear" -> <<>>
      [] e.op = "reverse" -> [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
      [] e.op = "imul" -> Times(s, e.lo)
      \* every second item is replaced
      [] e.op = "step" -> [j \in 1..Len(s) |-> IF j % 2 = 1 THEN items[(j + 1) \div 2] ELSE s[j]]

Refuse(h) == [ok |-> FALSE, h |-> h]
Accept(h) == [ok |-> TRUE, h |-> h]

Effect(m, h, e) ==
    CASE e.op = "new" ->
           IF \E k \in 1..Len(e.kw) : e.kw[k].py \notin FieldNames(m, e.c)
                                      \/ AcceptField(m, h, FieldOf(m, e.c, e.kw[k].py), e.kw[k].g) = <<>>
           THEN Refuse(h) ELSE Accept(Construct(m, h, e.c, e.kw))
      [] e.op = "parse" ->
           IF Unreadable(m, e.c, e.tree) # {} THEN Refuse(h) ELSE Accept(Build(m, h, e.c, e.tree))
      [] e.op = "copy" -> Accept(Copied(m, h, e.id))
      [] e.op = "set" ->
           IF e.py \notin FieldNames(m, h[e.id].c) THEN Refuse(h)
           ELSE LET v == AcceptField(m, h, FieldOf(m, h[e.id].c, e.py), e.g)
                IN  IF v = <<>> THEN Refuse(h) ELSE Accept(Put(h, e.id, e.py, v[1]))
      [] e.op = "render" ->
           IF Refused(m, h[e.id].c, Deref(h, RefTo(e.id))) THEN Refuse(h) ELSE Accept(h)
      [] e.op = "stale" -> Accept(h)      \* an operation on a list which is not in the object any more
      [] e.op \in Growing \cup Shrinking ->
           LET f == FieldOf(m, h[e.id].c, e.py)
               r == AcceptItems(m, h, f, e.items)
               s == h[e.id].f[e.py].v
           IN  IF r = <<>> THEN Refuse(h)
               ELSE IF e.op = "step" /\ Len(r[1]) # (Len(s) + 1) \div 2 THEN Refuse(h)
               ELSE LET a == AfterList(e, s, r[1])
                    IN  IF e.op \in Growing \cup {"imul"} /\ ~WithinLimit(f, a) THEN Refuse(h)
                        ELSE Accept(Put(h, e.id, e.py, ListOf(a)))

(***************************************************************************)
(* Comparison of heaps.                                                      *)
(***************************************************************************)
RECURSIVE SameField(_, _)
SameField(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "list" -> Len(a.v) = Len(b.v) /\ \A j \in 1..Len(a.v) : SameField(a.v[j], b.v[j])
           [] a.t = "ref" -> a.id = b.id
           [] a.t = "nan" -> TRUE
           [] OTHER -> SameValue(a, b)
SameEntry(a, b) == a.c = b.c /\ DOMAIN a.f = DOMAIN b.f /\ \A p \in DOMAIN a.f : SameField(a.f[p], b.f[p])

(***************************************************************************)
(* What every heap reachable by operations satisfies.                        *)
(***************************************************************************)
ItemOk(m, h, f, v) ==
    CASE v.t = "ref" -> ~IsSimple(m, f.type) /\ v.id \in 1..Len(h) /\ IsA(m, h[v.id].c, f.type)
      [] v = Nil -> f.nil
      [] v = None -> TRUE
      [] OTHER -> IsSimple(m, f.type)
WellTyped(m, h) ==
    \A id \in 1..Len(h) : \A k \in 1..Len(Fields(m, h[id].c)) :
        LET f == Fields(m, h[id].c)[k]
            v == h[id].f[f.py]
        IN  IF f.k = "list" THEN v.t = "list" /\ WithinLimit(f, v.v) /\ \A j \in 1..Len(v.v) : ItemOk(m, h, f, v.v[j])
            ELSE ItemOk(m, h, f, v)
=============================================================================
