----------------------------- MODULE StubTrace -----------------------------
(***************************************************************************)
(* Calls through a client stub to a dispatcher of the same service (P09).      *)
(* One call: "call" (what the caller passes), "wire" (the HTTP request),         *)
(* "handler" and "hdone" (what the handler gets and does), "reply" (the HTTP      *)
(* response), "done" (what the caller gets).  The stub has no state: a call only  *)
(* depends on its arguments.                                                  *)
(***************************************************************************)
EXTENDS Dispatch, TraceBase

VARIABLES c, i, st
vars == <<c, i, st>>

Docs == INSTANCE Documents

NoValue == [k |-> "none"]
Idle == [ph |-> "idle", call |-> NoValue, outs |-> {}, v |-> NoValue, lost |-> FALSE, lostout |-> FALSE]
Step(bad, new) == [bad |-> bad, st |-> new]
Wrong(x) == [bad |-> {x}, st |-> [Idle EXCEPT !.ph = "lost"]]

\* The header parts which the other side can recognise, of the header sent.
SentHeader(s, hdr, t) ==
    IF hdr = None THEN (IF Len(t.k) = 1 THEN {} ELSE {"a header nobody has passed"})
    ELSE IF Len(t.k) = 1 THEN {"the header passed is not sent"}
    ELSE HeaderMirror(s, hdr, t.k[1])

WireFaults(cs, call, e) ==
    LET s == cs.service
        op == s.ops[call.o]
        q == [acts |-> e.acts, ctype |-> e.ctype]
        url == CASE call.loc = "template" -> Docs!Filled(cs.location, call.scheme, call.host)
                 [] OTHER -> call.url
        t == e.tree
    IN  (IF e.url = url THEN {} ELSE {"the request goes to another location"})
        \cup (IF e.method = "POST" THEN {} ELSE {"not a POST request"})
        \cup (IF Action(s, q) = op.action THEN {} ELSE {"not the action of the operation"})
        \cup (IF Trim(SplitValue(e.ctype)[1]) = (IF s.version = "soap11" THEN <<116, 101, 120, 116, 47, 120, 109, 108>> ELSE SoapXml)
              THEN {} ELSE {"not the content type of the SOAP version"})
        \cup (IF e.auth = call.auth THEN {} ELSE {"not the credentials of the stub"})
        \cup (IF e.wf # "yes" THEN {"the request is not well-formed"}
              ELSE IF EnvelopeFaults(s, t) # {} THEN EnvelopeFaults(s, t)
              ELSE SentHeader(s, call.hdr, t)
                   \cup (LET body == t.k[Len(t.k)]
                         IN  IF Len(body.k) # 1 THEN {"not exactly one element in the body"}
                             ELSE LET el == body.k[1]
                                      ty == s.model.types[call.body.c]
                                  IN  (IF el.n = op.input THEN {} ELSE {"not the input element of the operation"})
                                      \cup (IF el.ns = ty.sns[1] THEN {} ELSE {"wrong namespace of the input element"})
                                      \cup Mirror(s.model, ty.sq, ty.sns[1], call.body, el)))

\* What the caller is told about a result v of the server.
FaultTold(s, v, e) ==
    LET code == IF v.err THEN v.code ELSE ServerCode(s)
        msg == IF v.err THEN (IF v.hasmsg THEN XmlText(v.msg) ELSE <<>>) ELSE XmlText(v.cls \o ColonSpace \o v.msg)
    IN  IF e.k # "raise" \/ ~e.err THEN {"a fault is not raised as a SOAP error"}
        ELSE (IF e.code = code THEN {} ELSE {"the error has another code"})
             \cup (IF e.msg = msg THEN {} ELSE {"the error has another message"})

DoneFaults(cs, s0, e) ==
    LET s == cs.service
        m == s.model
        v == s0.v
    IN  CASE s0.ph = "called" ->
               IF e.k = "raise" /\ e.cls = "ValueError" /\ Refused(m, s0.call.body.c, s0.call.body) THEN {}
               ELSE IF e.k = "raise" /\ s0.call.hdr # None /\ Refused(m, s0.call.hdr.c, s0.call.hdr) THEN {}
               ELSE {"nothing is sent for a call"}
          [] s0.ph = "replied" /\ v = NoValue ->
               IF Client \notin s0.outs THEN {"an acceptable call does not reach its handler"}
               ELSE IF e.k = "raise" /\ e.err /\ e.code = ClientCode(s) THEN {} ELSE {"a refused call is not raised as a client fault"}
          [] s0.ph = "replied" /\ (v.k = "raise" \/ v.err) -> FaultTold(s, v, e)
          [] s0.ph = "replied" ->
               IF e.k = "raise" THEN {"a result of the handler is raised as an error"}
               ELSE (IF SameObject(m, v.body, e.body) THEN {} ELSE {"the caller gets another object than the handler returned"})
                    \cup (IF s0.lostout \/ (IF v.k = "resp" /\ v.hdr # None THEN e.hdr # None /\ SameObject(m, v.hdr, e.hdr) ELSE e.hdr = None) THEN {}
                          ELSE {"the caller gets another header than the handler set"})
          [] OTHER -> {"the call ends out of order"}

StepOf(cs, s0, e) ==
    LET s == cs.service
        m == s.model
    IN
    CASE e.op = "call" -> IF s0.ph \notin {"idle", "lost"} THEN Wrong("call out of order") ELSE Step({}, [Idle EXCEPT !.ph = "called", !.call = e])
      [] e.op = "wire" ->
           IF s0.ph # "called" THEN Wrong("request out of order")
           ELSE LET bad == WireFaults(cs, s0.call, e)
                    q == [wf |-> e.wf, tree |-> e.tree, acts |-> e.acts, ctype |-> e.ctype]
                IN  Step(bad, [s0 EXCEPT !.ph = "sent", !.outs = Outcomes(s, q), !.lost = KnownHeader \in bad])
      [] e.op = "handler" ->
           IF s0.ph # "sent" THEN Wrong("handler out of order")
           ELSE Step((IF e.o = s0.call.o THEN {} ELSE {"the handler of another operation is called"})
                     \cup (IF e.body.t = "obj" /\ SameObject(m, s0.call.body, e.body) THEN {} ELSE {"the handler gets another object than the caller passed"})
                     \cup (IF s0.lost \/ (IF s0.call.hdr = None THEN e.hdr = None ELSE e.hdr # None /\ SameObject(m, s0.call.hdr, e.hdr)) THEN {}
                           ELSE {"the handler gets another header than the caller passed"}),
                     [s0 EXCEPT !.ph = "handler"])
      [] e.op = "hdone" -> IF s0.ph # "handler" THEN Wrong("handler done out of order") ELSE Step({}, [s0 EXCEPT !.ph = "handled", !.v = e.v])
      [] e.op = "reply" ->
           IF s0.ph \notin {"sent", "handled"} THEN Wrong("reply out of order")
           ELSE LET v == s0.v
                    bad == IF v = NoValue \/ v.k = "raise" \/ v.err \/ ~e.wf \/ EnvelopeFaults(s, e.tree) # {} THEN {}
                           ELSE HeaderAnswer(s, IF v.k = "resp" THEN v.hdr ELSE None, e.tree) \cap {KnownHeader}
                IN  Step(bad, [s0 EXCEPT !.ph = "replied", !.lostout = bad # {}])
      [] e.op = "done" -> Step(DoneFaults(cs, s0, e), Idle)

TraceInit == c \in 1..CaseCount /\ i = 0 /\ st = Idle
TraceNext ==
    LET w == StepOf(Cases[c], st, Cases[c].events[i + 1])
    IN  /\ i < Len(Cases[c].events)
        /\ i' = i + 1 /\ c' = c
        /\ st' = w.st
        /\ Judge(c, i + 1, w.bad)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("distinct"))
=============================================================================
