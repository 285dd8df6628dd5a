------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Matching of whole texts by regular expressions given as syntax trees:    *)
(*   [op |-> "cls", neg |-> BOOLEAN, r |-> <<<<lo, hi>>, ...>>]  one symbol *)
(*   [op |-> "seq", a |-> <<...>>]      one after the other                  *)
(*   [op |-> "alt", a |-> <<...>>]      any of them                          *)
(*   [op |-> "rep", a |-> <<x>>, min |-> n, max |-> m]   m = -1: no limit    *)
(***************************************************************************)
EXTENDS Integers, Sequences

InClass(c, x) == (\E k \in 1..Len(c.r) : x >= c.r[k][1] /\ x <= c.r[k][2]) # c.neg

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsRep(_, _, _, _, _)
\* The positions which can be reached in s from the positions P.
Ends(re, s, P) ==
    CASE re.op = "cls" -> {p + 1 : p \in {q \in P : q <= Len(s) /\ InClass(re, s[q])}}
      [] re.op = "seq" -> EndsSeq(re.a, 1, s, P)
      [] re.op = "alt" -> UNION {Ends(re.a[k], s, P) : k \in 1..Len(re.a)}
      [] re.op = "rep" -> EndsRep(re, 0, s, P, IF re.min = 0 THEN P ELSE {})
EndsSeq(items, k, s, P) == IF k > Len(items) \/ P = {} THEN P ELSE EndsSeq(items, k + 1, s, Ends(items[k], s, P))
\* n repetitions have lead to P, the positions after at least min repetitions are in acc.
EndsRep(re, n, s, P, acc) ==
    IF P = {} \/ (re.max # -1 /\ n >= re.max) THEN acc
    ELSE LET Q == Ends(re.a[1], s, P)
             new == IF n + 1 >= re.min THEN Q \ acc ELSE {}
         IN  IF n + 1 >= re.min /\ new = {} THEN acc
             ELSE IF n > Len(s) + re.min THEN acc
             ELSE EndsRep(re, n + 1, s, Q, acc \cup new)

Matches(re, s) == (Len(s) + 1) \in Ends(re, s, {1})
=============================================================================
