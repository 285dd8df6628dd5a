----------------------------- MODULE EntryTrace -----------------------------
(***************************************************************************)
(* The HTTP entries (P08): the same HTTP request is given to the dispatcher     *)
(* itself ("direct"), to the WSGI application, the Flask view and the Django    *)
(* view.  A request: [method, headers: <<[n, v]>> (n in lower case), body: the   *)
(* content of the bytes up to the content length (wf, tree), length, sent].     *)
(* An answer: [k: "answer"/"raise", status, reason, ctype, xh, digest, bytes,   *)
(* cls, calls: <<[o, body]>>, read: number of bytes taken from the connection].  *)
(***************************************************************************)
EXTENDS Dispatch, TraceBase

VARIABLES c, i, direct
vars == <<c, i, direct>>

None1 == [k |-> "none"]

Header(r, name) ==
    LET all == SelectSeq(r.headers, LAMBDA h : h.n = name)
    IN  IF all = <<>> THEN <<>> ELSE all[1].v
\* What the dispatcher can know of an HTTP request.
AsContent(r) ==
    [method |-> r.method, query |-> r.query, wf |-> r.wf, tree |-> r.tree,
     acts |-> <<Header(r, "soapaction"), Header(r, "action")>>, ctype |-> Header(r, "content-type")]

CallFaults(s, r, a) ==
    LET q == AsContent(r)
        outs == Outcomes(s, q)
        ops == {o.o : o \in {x \in outs : x.k = "call"}}
    IN  IF Kind(q) # "soap" THEN (IF a.calls = <<>> THEN {} ELSE {"a handler runs for a document"})
        ELSE (IF Len(a.calls) > 1 THEN {"a handler runs more than once"} ELSE {})
             \cup {"the handler of another operation runs" : j \in {x \in 1..Len(a.calls) : a.calls[x].o \notin ops}}
             \cup (IF a.calls = <<>> /\ Client \notin outs THEN {"no handler runs for an acceptable request"} ELSE {})

EntryFaults(s, r, e, d) ==
    (IF e.a.read = r.length \/ (r.method # "POST" /\ e.a.read < r.length) THEN {} ELSE {e.entry \o ": the body is not read up to its length"})
    \cup (IF e.a.k # d.k THEN {e.entry \o ": raises unlike the dispatcher, or the other way round"}
          ELSE IF e.a.k = "raise" THEN (IF e.a.cls = d.cls THEN {} ELSE {e.entry \o ": another exception"})
          ELSE (IF e.a.bytes THEN {} ELSE {e.entry \o ": the body is not bytes"})
               \cup (IF e.a.status = d.status THEN {} ELSE {e.entry \o ": another status"})
               \cup (IF e.a.ctype = d.ctype THEN {} ELSE {e.entry \o ": another content type"})
               \cup (IF Range2(e.a.xh) = Range2(d.xh) THEN {} ELSE {e.entry \o ": other headers"})
               \cup (IF e.a.digest = d.digest THEN {} ELSE {e.entry \o ": another body"}))
    \cup (IF e.a.calls = d.calls THEN {} ELSE {e.entry \o ": other calls of handlers"})

TraceInit == c \in 1..CaseCount /\ i = 0 /\ direct = None1
TraceNext ==
    LET cs == Cases[c]
        e == cs.events[i + 1]
        r == cs.requests[e.req]
    IN  /\ i < Len(cs.events)
        /\ i' = i + 1 /\ c' = c
        /\ CASE e.entry = "direct" ->
                  /\ Judge(c, i + 1, CallFaults(cs.service, r, e.a)
                                     \cup (IF e.a.k = "raise" \/ e.a.bytes THEN {} ELSE {"the body is not bytes"}))
                  /\ direct' = e.a
             [] OTHER ->
                  /\ Judge(c, i + 1, EntryFaults(cs.service, r, e, direct))
                  /\ direct' = direct
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("distinct"))
=============================================================================
