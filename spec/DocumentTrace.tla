--------------------------- MODULE DocumentTrace ---------------------------
(***************************************************************************)
(* Traces of clients which read the published documents (P06).  Event "get":   *)
(* a request q and its answer a; "end": the client has followed all            *)
(* references (checked: none is left).                                       *)
(***************************************************************************)
EXTENDS Documents, TraceBase

VARIABLES c, i, pending, asked
vars == <<c, i, pending, asked>>

TraceInit == c \in 1..CaseCount /\ i = 1 /\ pending = {} /\ asked = {}
TraceNext ==
    LET cs == Cases[c]
        e == cs.events[i]
    IN  /\ i <= Len(cs.events)
        /\ i' = i + 1 /\ c' = c
        /\ CASE e.op = "get" ->
                  /\ Judge(c, i, AnswerFaults(cs.service, e.q, e.a))
                  /\ pending' = pending \cup Refs(e.a)
                  /\ asked' = asked \cup {<<63>> \o e.q.query}
             [] e.op = "end" ->
                  /\ Judge(c, i, IF pending \subseteq asked THEN {} ELSE {"a document refers to something which is not served by the entry"})
                  /\ UNCHANGED <<pending, asked>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("distinct"))
=============================================================================
