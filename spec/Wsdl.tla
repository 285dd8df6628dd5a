-------------------------------- MODULE Wsdl --------------------------------
(***************************************************************************)
(* What a WSDL document says, and which services code generated from it       *)
(* defines (P19).                                                           *)
(*                                                                          *)
(* A WSDL w: [wf, tns, services, bindings, portTypes, messages, elements,     *)
(*   types].  Every reference is a qualified name [ns, n] (ns "?": the prefix  *)
(*   is not declared); optional ones are sequences of at most one.             *)
(*   services:  <<[n, ports: <<[n, binding, addrns, address]>>]>>             *)
(*   bindings:  <<[n, type, soapns, style, transport,                          *)
(*                 ops: <<[n, soapns, action: <<>> or <<text>>, style,          *)
(*                         inuse, outuse, inh, outh: <<[message, part]>>]>>]>>  *)
(*   portTypes: <<[n, ops: <<[n, in: <<qname>>, out: <<qname>>]>>]>>           *)
(*   messages:  <<[n, parts: <<[n, element: <<qname>>, type: <<qname>>]>>]>>    *)
(*   elements, types: qualified names which the schemas of the WSDL (and those  *)
(*   they refer to) declare                                                  *)
(*   substs: <<[q, head]>>: an element and the head of its substitution group    *)
(*   typerefs, elementrefs: the names which the schemas refer to                *)
(* A service s: [n, tns, address, version, ops: <<[n, action, style, in, out]>>,  *)
(*   elements, substs];                                                          *)
(*   in, out: [k |-> "element" | "type" | "none", q: qname]                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Docs == INSTANCE Documents

Soap11 == "http://schemas.xmlsoap.org/wsdl/soap/"
Soap12 == "http://schemas.xmlsoap.org/wsdl/soap12/"
Http == "http://schemas.xmlsoap.org/soap/http"
SoapOf(version) == IF version = "soap11" THEN Soap11 ELSE Soap12

ItemsOf(seq) == {seq[k] : k \in 1..Len(seq)}
NamesOf(seq) == {seq[k].n : k \in 1..Len(seq)}
Named(seq, name) == SelectSeq(seq, LAMBDA x : x.n = name)
\* Exactly one item of that name.
Unique(seq, name) == Len(Named(seq, name)) = 1
The(seq, name) == Named(seq, name)[1]
Refers(w, q, seq) == q.ns = w.tns /\ Unique(seq, q.n)

(***************************************************************************)
(* Every reference resolves inside the document.                             *)
(***************************************************************************)
PartRefs(w, refs) ==
    UNION {IF ~Refers(w, r.message, w.messages) THEN {"a header of a message which is not defined"}
           ELSE IF ~Unique(The(w.messages, r.message.n).parts, r.part) THEN {"a header of a part which is not defined"}
           ELSE {} : r \in ItemsOf(refs)}
Closed(w) ==
    UNION {(IF Refers(w, p.binding, w.bindings) THEN {} ELSE {"a port of a binding which is not defined"}) : p \in UNION {ItemsOf(s.ports) : s \in ItemsOf(w.services)}}
    \cup UNION {(IF ~Refers(w, b.type, w.portTypes) THEN {"a binding of a port type which is not defined"}
                 ELSE LET pt == The(w.portTypes, b.type.n)
                      IN  UNION {(IF Unique(pt.ops, o.n) THEN {} ELSE {"a bound operation which the port type does not have"})
                                 \cup PartRefs(w, o.inh) \cup PartRefs(w, o.outh) : o \in ItemsOf(b.ops)}) : b \in ItemsOf(w.bindings)}
    \cup UNION {(IF \A q \in ItemsOf(o.in) \cup ItemsOf(o.out) : Refers(w, q, w.messages) THEN {} ELSE {"an operation with a message which is not defined"})
                 : o \in UNION {ItemsOf(p.ops) : p \in ItemsOf(w.portTypes)}}
    \cup UNION {(IF \A q \in ItemsOf(p.element) : q \in ItemsOf(w.elements) THEN {} ELSE {"a part of an element which no schema declares"})
                \cup (IF \A q \in ItemsOf(p.type) : q \in ItemsOf(w.types) THEN {} ELSE {"a part of a type which no schema declares"})
                \cup (IF Len(p.element) + Len(p.type) = 1 THEN {} ELSE {"a part without or with two kinds of content"})
                 : p \in UNION {ItemsOf(m.parts) : m \in ItemsOf(w.messages)}}
    \cup (IF ItemsOf(w.typerefs) \subseteq ItemsOf(w.types) THEN {} ELSE {"a schema refers to a type which no schema declares"})
    \cup (IF ItemsOf(w.elementrefs) \subseteq ItemsOf(w.elements) THEN {} ELSE {"a schema refers to an element which no schema declares"})

(***************************************************************************)
(* What an operation of a binding sends and receives.                        *)
(***************************************************************************)
None == [k |-> "none", q |-> [ns |-> "", n |-> ""]]
Content(w, messages) ==
    IF messages = <<>> \/ The(w.messages, messages[1].n).parts = <<>> THEN None
    ELSE LET p == The(w.messages, messages[1].n).parts[1]
         IN  IF p.element # <<>> THEN [k |-> "element", q |-> p.element[1]] ELSE [k |-> "type", q |-> p.type[1]]
PortOp(w, b, name) == The(The(w.portTypes, b.type.n).ops, name)
In(w, b, name) == Content(w, PortOp(w, b, name).in)
Out(w, b, name) == Content(w, PortOp(w, b, name).out)

\* What the WSDL says about a service otherwise than it is.
Describes(s, w) ==
    IF ~w.wf THEN {"the WSDL is not well-formed"}
    ELSE IF Closed(w) # {} THEN Closed(w)
    ELSE IF w.tns # s.tns THEN {"another target namespace"}
    ELSE IF Len(w.services) # 1 \/ w.services[1].n # s.n THEN {"not exactly the service"}
    ELSE IF Len(w.services[1].ports) # 1 THEN {"not one port"}
    ELSE LET port == w.services[1].ports[1]
             b == The(w.bindings, port.binding.n)
         IN  (IF ItemsOf(w.elements) = ItemsOf(s.elements) THEN {} ELSE {"not exactly the elements of the service"})
             \cup (IF ItemsOf(w.substs) = ItemsOf(s.substs) THEN {} ELSE {"other substitution groups"})
             \cup (IF port.address = s.address THEN {} ELSE {"another address"})
             \cup (IF port.addrns = SoapOf(s.version) /\ b.soapns = SoapOf(s.version) THEN {} ELSE {"another SOAP version"})
             \cup (IF b.transport = Http THEN {} ELSE {"another transport"})
             \cup (IF Len(b.ops) = Len(s.ops) /\ Len(The(w.portTypes, b.type.n).ops) = Len(s.ops)
                      /\ \A k \in 1..Len(s.ops) : Unique(b.ops, s.ops[k].n)
                   THEN UNION {LET o == s.ops[k]
                                   x == The(b.ops, o.n)
                               IN  (IF x.soapns = SoapOf(s.version) THEN {} ELSE {"an operation without or of another SOAP version"})
                                   \cup (IF x.action = <<o.action>> \/ (x.action = <<>> /\ o.action = "") THEN {} ELSE {"another action"})
                                   \cup (IF x.style = o.style THEN {} ELSE {"another style"})
                                   \cup (IF x.inuse = "literal" /\ x.outuse = "literal" THEN {} ELSE {"not literal"})
                                   \cup (IF In(w, b, o.n) = o.in THEN {} ELSE {"another input"})
                                   \cup (IF Out(w, b, o.n) = o.out THEN {} ELSE {"another output"}) : k \in 1..Len(s.ops)}
                   ELSE {"not exactly one operation per method"})

(***************************************************************************)
(* The services code generated from the WSDL defines: one for each port bound  *)
(* to SOAP over HTTP.                                                       *)
(*   [n, tns, version, ops: <<[n, action, style, in, out, inh, outh]>>]         *)
(*   in, out: [k, n];  inh, outh: the elements of the header                    *)
(***************************************************************************)
Local(x) == [k |-> x.k, n |-> x.q.n]
\* A part of a type is an element of its own name.
HeaderOf(w, refs) == {LET p == The(The(w.messages, r.message.n).parts, r.part)
                      IN  IF p.element = <<>> THEN [ns |-> "", n |-> p.n] ELSE p.element[1] : r \in ItemsOf(refs)}
ServiceOf(w, port) ==
    LET b == The(w.bindings, port.binding.n)
    IN  [n |-> port.n, tns |-> w.tns, version |-> IF b.soapns = Soap12 THEN "soap12" ELSE "soap11",
         ops |-> [k \in 1..Len(b.ops) |->
                    LET o == b.ops[k]
                    IN  [n |-> o.n, action |-> IF o.action = <<>> THEN "" ELSE o.action[1],
                         style |-> IF o.style = "" THEN "document" ELSE o.style,
                         in |-> Local(In(w, b, o.n)), out |-> Local(Out(w, b, o.n)),
                         inh |-> HeaderOf(w, o.inh), outh |-> HeaderOf(w, o.outh)]]]
SoapPorts(w) == {p \in UNION {ItemsOf(s.ports) : s \in ItemsOf(w.services)} : The(w.bindings, p.binding.n).transport = Http}

\* The differences between a service of generated code and the one the port describes.
ServiceFaults(want, got) ==
    (IF got.tns = want.tns THEN {} ELSE {"the service has another target namespace"})
    \cup (IF got.version = want.version THEN {} ELSE {"the service has another SOAP version"})
    \cup (IF Len(got.ops) # Len(want.ops) THEN {"the service has more or less operations"}
          ELSE UNION {LET x == want.ops[k]
                          y == got.ops[k]
                      IN  (IF y.n = x.n THEN {} ELSE {"another operation"})
                          \cup (IF y.action = x.action THEN {} ELSE {"an operation with another action"})
                          \cup (IF y.style = x.style THEN {} ELSE {"an operation with another style"})
                          \cup (IF y.in = x.in THEN {} ELSE {"an operation with another input"})
                          \cup (IF y.out = x.out THEN {} ELSE {"an operation with another output"})
                          \cup (IF ItemsOf(y.inh) = x.inh THEN {} ELSE {"an operation with another input header"})
                          \cup (IF ItemsOf(y.outh) = x.outh THEN {} ELSE {"an operation with another output header"}) : k \in 1..Len(want.ops)})

Has(t, what) == \E k \in 0..(Len(t) - Len(what)) : SubSeq(t, k + 1, k + Len(what)) = what
\* Where a stub is bound to: addresses may be templates.
BoundTo(address, stub) ==
    IF Has(address, Docs!SCHEME) \/ Has(address, Docs!HOST) THEN Docs!Filled(address, stub.scheme, stub.host) ELSE address

\* code: [ok, target, wsa, hidden: <<classes which are not accessible by their names>>,
\*   services: <<[n, tns, version, functions: <<BOOLEAN>>, bases, ops]>>, stubs: <<[service, location, scheme, host, calls: <<op names>>, ok]>>]
CodeFaults(w, code) ==
    IF ~code.ok THEN {"the generated code can not be imported"}
    ELSE LET ports == SoapPorts(w)
         IN  (IF code.hidden = <<>> THEN {} ELSE {"a generated class is hidden by something else of its name"})
             \cup (IF NamesOf(code.services) # {p.n : p \in ports} \/ Len(code.services) # Cardinality(ports)
             THEN {"not exactly one service per SOAP port"}
             ELSE UNION {LET got == The(code.services, p.n)
                             want == ServiceOf(w, p)
                             stubs == SelectSeq(code.stubs, LAMBDA x : x.service = p.n)
                         IN  ServiceFaults(want, got)
                             \cup (IF \A f \in ItemsOf(got.functions) : f = (code.target = "server") THEN {} ELSE {"operations with or without functions"})
                             \cup (IF \A q \in ItemsOf(got.bases) : q = (IF code.wsa THEN "wsa" ELSE "") THEN {} ELSE {"headers of another base class"})
                             \cup (IF Len(stubs) # (IF code.target = "client" THEN 1 ELSE 0) THEN {"not exactly one stub per port of a client"}
                                   ELSE IF stubs = <<>> THEN {}
                                   ELSE (IF stubs[1].ok THEN {} ELSE {"a method of the stub does not pass its arguments on"})
                                        \cup (IF ItemsOf(stubs[1].calls) = NamesOf(want.ops) /\ Len(stubs[1].calls) = Len(want.ops) THEN {}
                                              ELSE {"not exactly one method of the stub per operation"})
                                        \cup (IF stubs[1].location = BoundTo(p.address, stubs[1]) THEN {} ELSE {"the stub is bound to another address"})) : p \in ports})

(***************************************************************************)
(* A call of the generated stub against the generated server.                *)
(*   [o: the operation, location: of the stub, url: <<requests sent>>,          *)
(*    handler: <<operations whose function was called>>,                        *)
(*    sent, got, ret, result: <<documents>>: what the caller passes, the function   *)
(*    gets, the function returns and the caller gets, hsent, hgot: <<header parts>>] *)
(***************************************************************************)
\* HTTP knows no empty path: http://host stands for http://host/.
Requested(url) == IF Cardinality({j \in DOMAIN url : url[j] = 47}) = 2 THEN Append(url, 47) ELSE url

CallFaults(e) ==
    IF e.url # <<Requested(e.location)>> THEN {"not one request to the location of the stub"}
    ELSE IF e.handler # <<e.o>> THEN {"not exactly the function of the operation is called"}
    ELSE (IF e.got = e.sent THEN {} ELSE {"the function gets something else than the caller passes"})
         \cup (IF e.hgot = e.hsent THEN {} ELSE {"the function gets another header than the caller passes"})
         \cup (IF e.result = e.ret THEN {} ELSE {"the caller gets something else than the function returns"})
=============================================================================
