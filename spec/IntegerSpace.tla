---------------------------- MODULE IntegerSpace ----------------------------
(***************************************************************************)
(* P11: the value spaces of the thirteen built-in integer types, explored   *)
(* exhaustively around every bound of every type, for every way to give an  *)
(* integer and for facets which narrow (or try to widen) the range.         *)
(* A state is a field of some type and what it holds; Give is the only       *)
(* action.  Every Give is reported and replayed into the library.            *)
(***************************************************************************)
EXTENDS SimpleTypes, Json

CONSTANT Reach      \* how far around the bounds

VARIABLES type, narrow, given, held
vars == <<type, narrow, given, held>>

RECURSIVE Around(_, _, _)
Around(x, n, f) == IF n = 0 THEN {x} ELSE {x} \cup Around(IF f THEN SuccInt(x) ELSE PredInt(x), n - 1, f)

Bounds == UNION {{LowerBound(t)[k] : k \in DOMAIN LowerBound(t)} \cup {UpperBound(t)[k] : k \in DOMAIN UpperBound(t)} : t \in IntegerTypes}
Huge == {Nat2(<<1>> \o Zeros(30)), Neg2(<<9>> \o Zeros(25)), Nat2(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 7>>)}
Numbers == UNION {Around(b, Reach, TRUE) \cup Around(b, Reach, FALSE) : b \in Bounds \cup {Zero}} \cup Huge

Forms == {"int", "text", "plus", "zeros", "spaces", "newline"}
Codes(d) == IF d = <<>> THEN <<48>> ELSE [k \in 1..Len(d) |-> d[k] + 48]
Sign(x) == IF x.neg THEN <<45>> ELSE <<>>
Literal(x, form) ==
    CASE form \in {"int", "text"} -> Sign(x) \o Codes(x.i)
      [] form = "plus" -> (IF x.neg THEN <<45>> ELSE <<43>>) \o Codes(x.i)
      [] form = "zeros" -> Sign(x) \o <<48, 48>> \o Codes(x.i)
      [] form = "spaces" -> <<32, 9>> \o Sign(x) \o Codes(x.i) \o <<32>>
      [] form = "newline" -> Sign(x) \o Codes(x.i) \o <<10>>

\* Facets given by the user of the library: none, or one bound.
Narrowings == {<<>>} \cup {<<name, x>> : name \in {"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"},
                                         x \in {Zero, Nat2(<<1, 0, 0>>), Neg2(<<1, 2, 9>>), Nat2(P63), Neg2(P64)}}
Facets(n) == IF n = <<>> THEN <<>> ELSE n[1] :> Literal(n[2], "text")
Wanted(t, n, lit) == AcceptText(t, Facets(n), lit)

Init == type \in IntegerTypes /\ narrow \in Narrowings /\ given = <<>> /\ held = None

Give(x, form) ==
    LET lit == Literal(x, form)
        r == Wanted(type, narrow, lit)
    IN  /\ given = <<>>
        /\ given' = <<form, lit>>
        /\ held' = IF r = <<>> THEN held ELSE r[1]
        /\ UNCHANGED <<type, narrow>>
        /\ PrintT("@@" \o ToJson([type |-> type, narrow |-> IF narrow = <<>> THEN <<>> ELSE <<narrow[1], Literal(narrow[2], "text")>>,
                                  form |-> form, lit |-> lit, ok |-> r # <<>>, held |-> held']))

Next == \E x \in Numbers, form \in Forms :
            (form \in {"int", "text"} \/ narrow = <<>>) /\ Give(x, form)
Spec == Init /\ [][Next]_vars

(* What the design has to guarantee. *)
RangeKept == held # None => InRange(type, held.n)
NarrowingKept == (held # None /\ narrow # <<>>) =>
    LET c == CmpDec(held.n, narrow[2])
    IN  CASE narrow[1] = "minInclusive" -> c >= 0 [] narrow[1] = "maxInclusive" -> c <= 0
          [] narrow[1] = "minExclusive" -> c > 0 [] narrow[1] = "maxExclusive" -> c < 0
ExactValue == held # None => LexInteger(Trim(given[2])) = <<held.n>>
=============================================================================
