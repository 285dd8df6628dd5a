----------------------------- MODULE WsdlTrace -----------------------------
(***************************************************************************)
(* P19: WSDL generated for services, and code generated from WSDL.  Events:   *)
(*   wsdl: the WSDL generated for the service of the case, as it reads         *)
(*   serve: a dispatcher of the generated server fails to be made                *)
(*   call: a call through the generated stub reaches the generated server        *)
(*   code: code has been generated from the WSDL of the case (the one written   *)
(*         or, in the first case, the one generated) for a client or a server    *)
(***************************************************************************)
EXTENDS Wsdl, TraceBase

VARIABLES c, i
vars == <<c, i>>

Faults(cs, e) ==
    CASE e.op = "wsdl" -> IF ~e.ok THEN {"no WSDL is generated"} ELSE Describes(cs.service, e.w)
      [] e.op = "code" -> IF Closed(cs.w) # {} THEN {"MACHINERY: " \o x : x \in IF cs.service.n = "" THEN Closed(cs.w) ELSE {}} ELSE CodeFaults(cs.w, e)
      [] e.op = "serve" -> IF e.ok THEN {} ELSE {"the generated service can not be served"}
      [] e.op = "call" -> CallFaults(e)

TraceInit == c \in 1..CaseCount /\ i = 0
TraceNext ==
    /\ i < Len(Cases[c].events)
    /\ i' = i + 1 /\ c' = c
    /\ Judge(c, i + 1, Faults(Cases[c], Cases[c].events[i + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceConsumed == Consumed(TLCGet("distinct"))
=============================================================================
