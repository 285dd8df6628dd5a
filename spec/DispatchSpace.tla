---------------------------- MODULE DispatchSpace ----------------------------
(***************************************************************************)
(* Bounded exploration of one request on its way through the hooks and the    *)
(* middlewares: all stacks of at most MaxMws middlewares which follow one of   *)
(* the Scripts, all outcomes of the handler, all ways of the hooks.  Every      *)
(* complete history is reported and replayed by the checks of P04 and P05.      *)
(* The invariants state the onion of P04 and the hooks of P05 for the          *)
(* histories of the specification.                                            *)
(*                                                                          *)
(* A value on its way up: [k |-> "ok"/"soap"/"exc"/"odd", from, up]; up: it is  *)
(* raised (and not returned); "soap": a SOAP error; "odd": an exception of      *)
(* another class than the others.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS MaxMws, Scripts, Ends, Kinds, RequestWays, ResponseWays, Others

VARIABLES cfg, pc, d, calls, req, v, hist
vars == <<cfg, pc, d, calls, req, v, hist>>

Soap == {"soap", "invalid"}
V(k, from, up) == [k |-> k, from |-> from, up |-> up]
Nothing == V("none", "", FALSE)
Ev(e, i, x) == [e |-> e, i |-> i, x |-> x]
Shown(x) == x.k \o (IF x.up THEN "!" ELSE ":") \o x.from

Init ==
    /\ \E kind \in Kinds, rw \in RequestWays, sw \in ResponseWays, others \in Others :
         /\ \E n \in 0..MaxMws : \E mws \in [1..n -> Scripts] :
              \E end \in (IF kind = "soap" THEN Ends ELSE {"ok"}) :
                cfg = [kind |-> kind, rw |-> rw, sw |-> sw, others |-> others, mws |-> mws, end |-> end]
    /\ pc = "start" /\ d = 0 /\ calls = [j \in 1..MaxMws |-> [n |-> 0, r |-> ""]] /\ req = "r" /\ v = Nothing /\ hist = <<>>

N == Len(cfg.mws)
Say(e, i, x) == hist' = Append(hist, Ev(e, i, x))
TypeErr == V("type", "", TRUE)

Start ==
    /\ pc = "start"
    /\ UNCHANGED <<cfg, d, calls>>
    /\ LET bad == cfg.kind = "other"
           way == IF bad THEN "none" ELSE cfg.rw
       IN  /\ IF way = "none" THEN hist' = hist ELSE Say("hook-request", 0, req)
           /\ req' = IF way = "other" THEN "rh" ELSE req
           /\ v' = IF way = "wrong" THEN TypeErr ELSE IF cfg.kind \in Soap THEN v ELSE V(cfg.kind, "", FALSE)
           /\ pc' = IF way = "wrong" THEN "done" ELSE IF cfg.kind \in Soap THEN "down" ELSE "send"

Script == cfg.mws[d + 1]
Down ==
    /\ pc = "down" /\ d < N
    /\ UNCHANGED cfg
    /\ d' = d + 1
    /\ LET me == ToString(d + 1)
           entered == Append(hist, Ev("enter", d + 1, req))
           Answer(x) == v' = x /\ pc' = "leave" /\ hist' = entered /\ UNCHANGED <<calls, req>>
           Call(r) == /\ v' = Nothing /\ pc' = "down" /\ req' = r /\ calls' = [calls EXCEPT ![d + 1] = [n |-> 1, r |-> req]]
                      /\ hist' = Append(entered, Ev("call", d + 1, r))
       IN  CASE Script = "short" -> Answer(V("ok", me, FALSE))
             [] Script = "shortS" -> Answer(V("soap", me, FALSE))
             [] Script = "raiseS" -> Answer(V("soap", me, TRUE))
             [] Script = "raiseE" -> Answer(V("exc", me, TRUE))
             [] Script = "replace" -> Call("r" \o me)
             [] OTHER -> Call(req)

Bottom ==
    /\ pc = "down" /\ d = N
    /\ UNCHANGED <<cfg, d, calls, req>>
    /\ pc' = "up"
    /\ IF cfg.kind = "invalid" THEN v' = V("soap", "client", TRUE) /\ hist' = hist
       ELSE /\ Say("handler", 0, req)
            /\ v' = CASE cfg.end = "ok" -> V("ok", "h", FALSE)
                      [] cfg.end = "soap" -> V("soap", "h", FALSE)
                      [] cfg.end = "soap!" -> V("soap", "h", TRUE)
                      [] cfg.end = "exc!" -> V("exc", "h", TRUE)
                      [] cfg.end = "odd!" -> V("odd", "h", TRUE)

Up ==
    /\ pc = "up" /\ d > 0
    /\ UNCHANGED <<cfg, d>>
    /\ LET me == ToString(d)
           mine == cfg.mws[d]
           back == Append(hist, Ev("back", d, Shown(v)))
           logged == CASE mine = "log" -> v.up
                       [] mine = "logE" -> v.up /\ v.k = "exc"
                       [] OTHER -> FALSE
           Leave(x) == v' = x /\ pc' = "leave" /\ UNCHANGED <<calls, req>> /\ hist' = IF logged THEN Append(back, Ev("log", d, "")) ELSE back
       IN  CASE mine = "twice" /\ ~v.up /\ calls[d].n < 2 ->
                  /\ v' = Nothing /\ pc' = "down" /\ req' = calls[d].r /\ calls' = [calls EXCEPT ![d].n = 2]
                  /\ hist' = Append(back, Ev("call", d, calls[d].r))
             [] mine = "afterS" -> Leave(V("soap", me, TRUE))
             [] mine = "afterE" -> Leave(V("exc", me, TRUE))
             [] mine = "other" -> Leave(IF v.up THEN v ELSE V("ok", me, FALSE))
             [] mine = "catch" -> Leave(IF v.up THEN V("ok", me, FALSE) ELSE v)
             [] mine = "e2f" -> Leave(IF ~v.up THEN v ELSE IF v.k = "soap" THEN [v EXCEPT !.up = FALSE] ELSE V("soap", "server", FALSE))
             [] OTHER -> Leave(v)

Leave ==
    /\ pc = "leave"
    /\ UNCHANGED <<cfg, calls, req, v>>
    /\ Say("leave", d, Shown(v))
    /\ d' = d - 1
    /\ pc' = "up"

\* The request hook's result and not what a middleware made of it is the request of the response hook.
Arrive ==
    /\ pc = "up" /\ d = 0
    /\ UNCHANGED <<cfg, d, calls, req, hist>>
    /\ IF v.up /\ v.k # "soap" THEN v' = v /\ pc' = "done"
       ELSE v' = [v EXCEPT !.up = FALSE] /\ pc' = "send"
Send ==
    /\ pc = "send"
    /\ UNCHANGED <<cfg, d, calls, req>>
    /\ pc' = "done"
    /\ LET way == IF cfg.kind = "other" THEN "none" ELSE cfg.sw
           hookreq == IF cfg.rw = "other" THEN "rh" ELSE "r"
       IN  /\ IF way = "none" THEN hist' = hist ELSE Say("hook-response", 0, hookreq \o " " \o Shown(v))
           /\ v' = CASE way = "wrong" -> TypeErr [] way = "other" -> V("ok", "hook", FALSE) [] OTHER -> v
Done ==
    /\ pc = "done"
    /\ pc' = "over"
    /\ PrintT("@@" \o ToJson([cfg |-> cfg, hist |-> hist, v |-> Shown(v)]))
    /\ UNCHANGED <<cfg, d, calls, req, v, hist>>

\* The logger is never called while a request goes down, so a depth names the middleware.
Next == Start \/ Down \/ Bottom \/ Up \/ Leave \/ Arrive \/ Send \/ Done
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the histories have in common.                                        *)
(***************************************************************************)
Count(e) == Len(SelectSeq(hist, LAMBDA t : t.e = e))
CountAt(e, i) == Len(SelectSeq(hist, LAMBDA t : t.e = e /\ t.i = i))
Over == pc = "over"
Retries == Cardinality({j \in 1..N : cfg.mws[j] = "twice"})
Stops(j) == cfg.mws[j] \in {"short", "shortS", "raiseS", "raiseE"}
Reaches(j) == cfg.kind \in Soap /\ cfg.rw # "wrong" /\ \A x \in 1..(j - 1) : ~Stops(x)
\* Every middleware which is entered is left, and every call comes back.
Balanced == Over => \A j \in 1..N : CountAt("enter", j) = CountAt("leave", j) /\ CountAt("call", j) = CountAt("back", j)
AllEntered == Over => \A j \in 1..N : Reaches(j) <=> CountAt("enter", j) > 0
HandlerRuns == Over => IF cfg.kind = "soap" /\ Reaches(N + 1)
                       THEN Count("handler") >= 1 /\ Count("handler") <= 2 ^ Retries
                       ELSE Count("handler") = 0
Documents == Over /\ cfg.kind \notin Soap => Count("enter") = 0
HooksOnce == Over =>
    /\ Count("hook-request") = (IF cfg.kind = "other" \/ cfg.rw = "none" THEN 0 ELSE 1)
    /\ Count("hook-response") = (IF cfg.kind = "other" \/ cfg.sw = "none" \/ cfg.rw = "wrong" \/ (v.up /\ v.k \in {"exc", "odd"}) THEN 0 ELSE 1)
\* With the exception middleware outermost nothing is ever raised (but by hooks).
NoEscape == Over /\ N > 0 /\ cfg.mws[1] = "e2f" => ~v.up \/ v.k = "type"
\* The sequence of depths entered and left is that of an onion with the handler inside.
Nested ==
    LET Step(acc, t) ==
            CASE acc < 0 -> acc
              [] t.e = "enter" -> IF t.i = acc + 1 THEN acc + 1 ELSE 0 - 1
              [] t.e = "leave" -> IF t.i = acc THEN acc - 1 ELSE 0 - 1
              [] t.e = "handler" -> IF acc = N THEN acc ELSE 0 - 1
              [] t.e \in {"call", "back", "log"} -> IF acc = t.i THEN acc ELSE 0 - 1
              [] OTHER -> IF acc = 0 THEN 0 ELSE 0 - 1
    IN  pc # "leave" => FoldLeft(Step, 0, hist) = IF pc \in {"down", "up"} THEN d ELSE 0
=============================================================================
