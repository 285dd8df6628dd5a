----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation: the cases recorded from the real code are read from    *)
(* the file named by the environment variable CASES (one JSON value per     *)
(* line), each case has a sequence of events.  Verdicts are total: a step    *)
(* the specification does not allow is reported with the clauses it breaks,  *)
(* and the trace goes on from the state the real code was in.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
CaseCount == Len(Cases)

\* Always TRUE; reports a step that is no step of the specification.
Judge(c, i, bad) ==
    IF bad = {} THEN TRUE ELSE PrintT("@@" \o ToJson([c |-> c, i |-> i, bad |-> bad]))

RECURSIVE EventCount(_)
EventCount(k) == IF k = 0 THEN 0 ELSE Len(Cases[k].events) + 1 + EventCount(k - 1)
\* All events of all cases have been consumed: one state per event and one initial state per case.
\* (States are never identified with one another as they contain the position.)
Consumed(distinct) == distinct = EventCount(CaseCount)
=============================================================================
