----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Requests which are dispatched at the same time by several threads (P07).   *)
(* Each request goes through its own points: the callbacks between which the   *)
(* dispatcher works on it.  A request only has a local state (Dispatch.tla),   *)
(* so what it sees is what it would see alone; all interleavings of the points *)
(* are reported, and the check runs the real dispatcher through each of them.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Requests, Points

VARIABLES at, sched, seen
vars == <<at, sched, seen>>

Init == at = [r \in 1..Requests |-> 0] /\ sched = <<>> /\ seen = [r \in 1..Requests |-> <<>>]
\* What a request sees at its next point is a function of its own past.
Sees(r) == <<r, at[r]>>
Next == \E r \in 1..Requests :
    /\ at[r] < Points
    /\ at' = [at EXCEPT ![r] = @ + 1]
    /\ sched' = Append(sched, r)
    /\ seen' = [seen EXCEPT ![r] = Append(@, Sees(r))]
    /\ (Len(sched') < Requests * Points \/ PrintT("@@" \o ToJson([sched |-> sched'])))
Spec == Init /\ [][Next]_vars

Alone(r) == [j \in 1..at[r] |-> <<r, j - 1>>]
Isolation == \A r \in 1..Requests : seen[r] = Alone(r)
=============================================================================
