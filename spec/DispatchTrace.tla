---------------------------- MODULE DispatchTrace ----------------------------
(***************************************************************************)
(* Traces of the dispatcher: what the callbacks (hooks, middlewares,          *)
(* handlers) see and do while requests, possibly at the same time, are        *)
(* dispatched.  Every event has a field r: the request it belongs to; the     *)
(* events of one request only depend on its own local state st[r].            *)
(* A case: service, requests (the contents, by identity of request objects),   *)
(* events, n (number of requests dispatched).                                 *)
(***************************************************************************)
EXTENDS Dispatch, TraceBase

VARIABLES c, i, st
vars == <<c, i, st>>

NoValue == [k |-> "none"]
\* ph: "new", "down" (on the way to frame d + 1), "in" (middleware d is running), "handler", "up" (leaving frame
\*     d + 1), "sent" (the response hook has run), "type" (a hook returned a wrong type), "over"
\* want: what is on the way up; last: the last result a middleware or the dispatcher has got; names: allowed names of
\*     the response element; hid: the request the dispatcher works on; req: the request passed down
Fresh == [ph |-> "new", d |-> 0, req |-> 0, hid |-> 0, want |-> NoValue, last |-> NoValue, op |-> 0, names |-> "class",
          out |-> NoValue, ret |-> 0]

Depth(s) == Len(s.mws)
HasHook(s, name) == \E j \in 1..Len(s.hooks) : s.hooks[j] = name
Wrong(x) == [bad |-> {x}, st |-> [Fresh EXCEPT !.ph = "lost"]]
Step(bad, new) == [bad |-> bad, st |-> new]

\* After the last middleware the request is checked; if it is not acceptable the next thing seen is the fault.
Rising(cs, s) ==
    IF s.ph = "down" /\ s.d = Depth(cs.service)
    THEN IF \E o \in Outcomes(cs.service, cs.requests[s.req]) : o.k = "client"
         THEN [s EXCEPT !.ph = "up", !.want = [k |-> "client"], !.names = IF @ = "class" THEN "any" ELSE @]
         ELSE [s EXCEPT !.ph = "rejected"]
    ELSE s

Upwards(cs, s, d, got, what) ==
    LET u == Rising(cs, s)
    IN  IF u.ph = "rejected" THEN {"an acceptable request does not reach its handler"}
        ELSE IF u.ph # "up" \/ u.d # d THEN {what \o " out of order"}
        ELSE Differences(cs.service, u.want, got)

HookNames == {"soap-request", "soap-response", "wsdl-request", "wsdl-response", "xsd-request", "xsd-response"}
AllNames(s) == {s.ops[j].output : j \in 1..Len(s.ops)}
AnswerNames(s, st1, v) ==
    CASE st1.names = "class" -> {v.uncap}
      [] st1.names = "op" -> {IF s.ops[st1.op].output = "" THEN v.uncap ELSE s.ops[st1.op].output}
      [] OTHER -> AllNames(s) \cup {v.uncap}

\* The contents of the result which is answered: the object a handler returned becomes a response.
Content(u, got) == CASE u.want.k = "same" -> u.want.v [] u.want.k = "wrap" -> [u.want.v EXCEPT !.k = "resp"] [] OTHER -> got

StepOf(cs, s0, e) ==
    LET s == cs.service
        q == cs.requests[s0.req]
    IN
    CASE e.op = "start" ->
           LET new == [Fresh EXCEPT !.req = e.req, !.hid = e.req]
               kind == Kind(cs.requests[e.req])
           IN  Step({}, [new EXCEPT !.ph = IF kind = "bad" THEN "document"
                                           ELSE IF HasHook(s, kind \o "-request") THEN "new"
                                           ELSE IF kind = "soap" THEN "down" ELSE "document"])
      [] e.op = "hook" /\ e.point = "request" ->
           IF s0.ph # "new" THEN Wrong("request hook out of order")
           ELSE Step((IF e.kind = Kind(q) THEN {} ELSE {"request hook of another kind"})
                     \cup (IF e.arg.id = s0.req /\ e.disp THEN {} ELSE {"the request hook gets another request or dispatcher"}),
                     IF e.ret.k # "req" THEN [s0 EXCEPT !.ph = "type"]
                     ELSE [s0 EXCEPT !.ph = IF Kind(q) = "soap" THEN "down" ELSE "document", !.req = e.ret.id, !.hid = e.ret.id])
      [] e.op = "enter" ->
           IF s0.ph # "down" \/ e.i # s0.d + 1 \/ s0.d = Depth(s) THEN Wrong("middleware entered out of order")
           ELSE Step((IF e.req = s0.req THEN {} ELSE {"a middleware gets another request"})
                     \cup (IF e.disp THEN {} ELSE {"a middleware gets a request without the dispatcher"}),
                     [s0 EXCEPT !.ph = "in", !.d = e.i, !.last = NoValue])
      [] e.op = "call" ->
           IF s0.ph # "in" \/ s0.d # e.i THEN Wrong("middleware calls out of order")
           ELSE Step(IF s.mws[e.i].kind = "script" \/ e.req = s0.req THEN {} ELSE {"a middleware of the library replaced the request"},
                     [s0 EXCEPT !.ph = "down", !.req = e.req])
      [] e.op = "handler" ->
           IF s0.ph # "down" \/ s0.d # Depth(s) THEN Wrong("handler called out of order")
           ELSE LET calls == {o \in Outcomes(s, q) : o.k = "call"}
                    mine == {o \in calls : o.o = e.o}
                    BodyFaults(o) == IF e.body.t = "obj" /\ e.body.c = s.ops[o.o].intype
                                     THEN Recovered(s.model, s.ops[o.o].intype, o.el, e.body)
                                     ELSE {"the handler gets no object of the input class"}
                    HdrFaults(o) == IF o.hs = <<>> \/ HeaderClass(s, o.o) = ""
                                    THEN (IF e.hdr = None THEN {} ELSE {"the handler gets a header which was not sent or not declared"})
                                    ELSE IF e.hdr.t = "obj" /\ e.hdr.c = HeaderClass(s, o.o)
                                    THEN (IF Lax(s, o.o, o.hs) THEN {} ELSE Recovered(s.model, HeaderClass(s, o.o), o.hs[1], e.hdr))
                                    ELSE {"the handler gets no header of the declared class"}
                    All(o) == BodyFaults(o) \cup HdrFaults(o)
                    bad == IF calls = {} THEN {"a handler is called for an unacceptable request"}
                           ELSE IF mine = {} THEN {"the wrong operation is called"}
                           ELSE IF \E o \in mine : All(o) = {} THEN {} ELSE All(CHOOSE o \in mine : TRUE)
                IN  Step(bad \cup (IF e.req = s0.req THEN {} ELSE {"a handler gets another request"}),
                         [s0 EXCEPT !.ph = "handler", !.op = e.o, !.names = IF s0.req = s0.hid THEN "op" ELSE "any"])
      [] e.op = "fill" ->  \* the handler fills a WS-Addressing header dst, which was before, as the answer to src; seen: earlier identifiers
           IF s0.ph # "handler" THEN Wrong("a header is filled out of order")
           ELSE Step(Filled(e), s0)
      [] e.op = "hdone" ->
           IF s0.ph # "handler" THEN Wrong("handler done out of order")
           ELSE Step({}, [s0 EXCEPT !.ph = "up", !.want = IF e.v.k = "obj" THEN [k |-> "wrap", v |-> e.v] ELSE [k |-> "same", v |-> e.v]])
      [] e.op = "back" ->
           Step(Upwards(cs, s0, e.i, e.v, "return to a middleware"),
                [Rising(cs, s0) EXCEPT !.ph = "in", !.d = e.i, !.last = e.v])
      [] e.op = "leave" ->
           IF s0.ph # "in" \/ s0.d # e.i THEN Wrong("middleware left out of order")
           ELSE LET mw == s.mws[e.i]
                    logged == s0.last.k = "raise" /\ Range2(mw.excs) \cap Range2(s0.last.mro) # {}
                    bad == CASE mw.kind = "script" -> {}
                             [] s0.last.k = "none" -> {"a middleware of the library does not call on"}
                             [] mw.kind = "e2f" -> FaultOf(s, mw, s0.last, e.v)
                             [] mw.kind = "log" -> (IF e.v = s0.last THEN {} ELSE {"the logger changed a result"})
                                                   \cup (IF e.logs = (IF logged THEN 1 ELSE 0) THEN {} ELSE {"logged too much or too little"})
                IN  Step(bad, [s0 EXCEPT !.ph = "up", !.d = e.i - 1, !.want = [k |-> "same", v |-> e.v]])
      [] e.op = "hook" /\ e.point = "response" ->
           LET u == Rising(cs, s0)
               kind == Kind(q)
               new == [s0 EXCEPT !.ph = IF e.ret.k = "resp" THEN "sent" ELSE "type", !.out = e.out, !.ret = e.ret.id]
               disp == (IF e.disp THEN {} ELSE {"the response hook gets another dispatcher"})
                       \cup (IF e.kind = kind THEN {} ELSE {"response hook of another kind"})
                       \cup (IF e.req = s0.hid THEN {} ELSE {"the response hook gets another request"})
           IN  IF s0.ph = "document"
               THEN Step(disp \cup (IF HasHook(s, kind \o "-request") /\ s0.ph = "new" THEN {"the request hook has not run"} ELSE {})
                         \cup DocumentFaults(s, q, e.arg), new)
               ELSE IF u.ph = "rejected" THEN Step({"an acceptable request does not reach its handler"}, new)
               ELSE IF u.ph # "up" \/ u.d # 0 THEN Step({"response hook out of order"}, new)
               ELSE LET v == Content(u, e.v)
                    IN  Step(disp
                             \cup (IF u.want.k = "same" /\ u.want.v.k = "resp" /\ e.v.id # u.want.v.id THEN {"the response hook gets another response"} ELSE {})
                             \cup (IF v.k = "raise" /\ ~v.err THEN {"an exception nobody answered is answered"}
                                   ELSE (IF u.want.k = "wrap" /\ e.v.bid # u.want.v.id THEN {"not the object of the handler is sent"} ELSE {})
                                        \cup (IF u.want.k = "client" /\ ~(e.v.err /\ e.v.code = ClientCode(s)) THEN {"an unacceptable request is not a client fault"} ELSE {})
                                        \cup AnswerFaults(s, v, AnswerNames(s, u, v), e.arg)), new)
      [] e.op = "end" ->
           LET u == Rising(cs, s0)
               kind == Kind(q)
               over == [s0 EXCEPT !.ph = "over"]
           IN  CASE s0.ph = "type" ->
                      Step(IF e.k = "raise" /\ e.cls = "TypeError" THEN {} ELSE {"a hook returned another type and there is no type error"}, over)
                 [] s0.ph = "sent" ->
                      Step(IF e.k # "resp" THEN {"exception after the response hook"}
                           ELSE IF e.v.id = s0.ret /\ e.out = s0.out THEN {} ELSE {"not what the response hook returned is sent"}, over)
                 [] s0.ph = "document" ->
                      Step(IF e.k # "resp" THEN {"a document request raises an exception"}
                           ELSE (IF kind # "bad" /\ HasHook(s, kind \o "-response") THEN {"the response hook has not run"} ELSE {})
                                \cup DocumentFaults(s, q, e.out), over)
                 [] u.ph = "rejected" -> Step({"an acceptable request does not reach its handler"}, over)
                 [] u.ph # "up" \/ u.d # 0 -> Step({"answered out of order"}, over)
                 [] e.k = "raise" ->
                      Step(IF u.want.k = "same" /\ u.want.v.k = "raise" /\ ~u.want.v.err
                           THEN (IF e.v.id = u.want.v.id THEN {} ELSE {"another exception than the one nobody answered"})
                           ELSE {"dispatch raises an exception"}, over)
                 [] OTHER ->
                      LET v == Content(u, e.v)
                      IN  Step(IF HasHook(s, "soap-response") THEN {"the response hook has not run"}
                               ELSE IF v.k = "raise" /\ ~v.err THEN {"an exception nobody answered is answered"}
                               ELSE (IF u.want.k = "same" /\ u.want.v.k = "resp" /\ e.v.id # u.want.v.id THEN {"not the response of the first middleware is sent"} ELSE {})
                                    \cup (IF u.want.k = "wrap" /\ e.v.bid # u.want.v.id THEN {"not the object of the handler is sent"} ELSE {})
                                    \cup (IF u.want.k = "client" /\ ~(e.v.err /\ e.v.code = ClientCode(s)) THEN {"an unacceptable request is not a client fault"} ELSE {})
                                    \cup AnswerFaults(s, v, AnswerNames(s, u, v), e.out), over)
      [] e.op = "names" -> \* a dispatcher is constructed with hooks of these names
           Step(IF e.raised = (IF \A j \in 1..Len(e.names) : e.names[j] \in HookNames THEN "" ELSE "KeyError") THEN {}
                ELSE {"hook names are checked wrongly"}, s0)
      [] e.op = "alone" -> \* what the request has seen and got, here and alone
           Step(IF e.got = e.alone THEN {} ELSE {"a request does not get what it gets alone"}, s0)
      [] e.op = "shared" -> \* the mutable objects of the requests
           Step(IF \A j, x \in 1..Len(e.sets) : j < x => Range2(e.sets[j]) \cap Range2(e.sets[x]) = {} THEN {}
                ELSE {"requests share mutable objects"}, s0)
      [] e.op = "check" -> Step(IF e.ok THEN {} ELSE {e.what}, s0)

Judged(cs, s0, e) == IF s0.ph = "lost" /\ e.op \notin {"check", "names", "alone", "shared"} THEN Step({}, s0) ELSE StepOf(cs, s0, e)

TraceInit == c \in 1..CaseCount /\ i = 0 /\ st = [r \in 1..Cases[c].n |-> [Fresh EXCEPT !.req = 1]]
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ LET e == Cases[c].events[i + 1]
           w == Judged(Cases[c], st[e.r], e)
       IN  /\ st' = [st EXCEPT ![e.r] = w.st]
           /\ Judge(c, i + 1, w.bad)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("stats").distinct)
=============================================================================
