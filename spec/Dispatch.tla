------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* The dispatcher as a state machine: how a request is classified, checked,   *)
(* routed and answered (P01, P02, P03, P22), how it passes the middlewares    *)
(* (P04) and the hooks (P05).  A request has a local state of its own and     *)
(* nothing else has a state: what happens to a request depends on nothing but *)
(* the request and what the callbacks do (P07).                              *)
(*                                                                          *)
(* A service s:                                                             *)
(*   model: class model; complex types have sns and sq (their schema)        *)
(*   version: "soap11"/"soap12"; strict: BOOLEAN                             *)
(*   elements: <<[n, ns, q, type, nil, subst]...>> the global elements        *)
(*   ops: <<[action, input, intype, output, inh]...>>; inh: header class       *)
(*   inh: header class of the service or ""                                  *)
(*   mws: <<[kind |-> "script"/"e2f"/"log", excs |-> <<...>>, tb]...>>        *)
(*   hooks: <<names>>; locations: <<codes>> of the schema documents           *)
(* A request content q:                                                     *)
(*   [method, query |-> <<[k, v]...>>, wf |-> "yes"/"no"/"maybe", tree, acts,  *)
(*    ctype], acts: the values of the SOAP action headers by precedence.      *)
(***************************************************************************)
EXTENDS ClassModel

ENV11 == "http://schemas.xmlsoap.org/soap/envelope/"
ENV12 == "http://www.w3.org/2003/05/soap-envelope"
WSA == "http://www.w3.org/2005/08/addressing"
XMLNS == "http://www.w3.org/XML/1998/namespace"
EnvNs(s) == IF s.version = "soap11" THEN ENV11 ELSE ENV12

Range2(q) == {q[j] : j \in 1..Len(q)}

(***************************************************************************)
(* What kind of request it is.                                              *)
(***************************************************************************)
Names(q, names) == \E j \in 1..Len(q.query) : q.query[j].k \in names
Kind(q) ==
    CASE q.method = "GET" /\ Names(q, {"wsdl", "singleWsdl"}) -> "wsdl"
      [] q.method = "GET" /\ Names(q, {"xsd"}) -> "xsd"
      [] q.method = "POST" -> "soap"
      [] OTHER -> "bad"

(***************************************************************************)
(* The action of a request (texts are sequences of code points).             *)
(***************************************************************************)
NonEmpty(q) == SelectSeq(q, LAMBDA a : a # <<>>)
Unquoted(a) == SelectSeq(a, LAMBDA ch : ch # 34)
\* "application/soap+xml"
SoapXml == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 115, 111, 97, 112, 43, 120, 109, 108>>
ActionName == <<97, 99, 116, 105, 111, 110>>
Lower(a) == [j \in 1..Len(a) |-> IF a[j] >= 65 /\ a[j] <= 90 THEN a[j] + 32 ELSE a[j]]
\* The parts of a header value, separated by semicolons outside of quotes.
SplitValue(text) ==
    LET Add(acc, ch) ==
            IF acc.esc THEN [acc EXCEPT !.cur = Append(@, ch), !.esc = FALSE]
            ELSE IF acc.quoted /\ ch = 92 THEN [acc EXCEPT !.cur = Append(@, ch), !.esc = TRUE]
            ELSE IF ch = 34 THEN [acc EXCEPT !.cur = Append(@, ch), !.quoted = ~@]
            ELSE IF ch = 59 /\ ~acc.quoted THEN [acc EXCEPT !.parts = Append(@, acc.cur), !.cur = <<>>]
            ELSE [acc EXCEPT !.cur = Append(@, ch)]
        r == FoldLeft(Add, [parts |-> <<>>, cur |-> <<>>, quoted |-> FALSE, esc |-> FALSE], text)
    IN  Append(r.parts, r.cur)
Unescape(a) ==
    LET Add(acc, ch) ==
            IF acc.esc THEN [out |-> Append(acc.out, ch), esc |-> FALSE]
            ELSE IF ch = 92 THEN [acc EXCEPT !.esc = TRUE]
            ELSE [acc EXCEPT !.out = Append(@, ch)]
    IN  FoldLeft(Add, [out |-> <<>>, esc |-> FALSE], a).out
\* The value of the action parameter of a content type, <<>> if there is none.
ActionParameter(ctype) ==
    LET parts == SplitValue(ctype)
        Eq(p) == LET S == {j \in 1..Len(p) : p[j] = 61} IN IF S = {} THEN 0 ELSE MinOf(S)
        KeyOf(p) == Lower(Trim(SubSeq(p, 1, Eq(p) - 1)))
        ValueOf(p) == LET v == Trim(SubSeq(p, Eq(p) + 1, Len(p)))
                      IN  IF Len(v) >= 2 /\ v[1] = 34 /\ v[Len(v)] = 34 THEN Unescape(SubSeq(v, 2, Len(v) - 1)) ELSE v
        is == {j \in 2..Len(parts) : Eq(parts[j]) > 0 /\ KeyOf(parts[j]) = ActionName}
    IN  IF Trim(parts[1]) # SoapXml \/ is = {} THEN <<>> ELSE ValueOf(parts[MinOf(is)])
Action(s, q) ==
    IF s.version = "soap11"
    THEN LET given == NonEmpty(q.acts) IN IF given = <<>> THEN <<>> ELSE Unquoted(given[1])
    ELSE ActionParameter(q.ctype)

(***************************************************************************)
(* Validity.                                                                *)
(***************************************************************************)
ElementOf(s, el) == SelectSeq(s.elements, LAMBDA g : g.n = el.n /\ g.ns = el.ns)
\* Why the element is not valid against the service's schema.
GlobalFaults(s, el) ==
    LET g == ElementOf(s, el)
    IN  IF g = <<>> THEN {"not a global element: " \o el.n}
        ELSE Invalid(s.model, g[1].q, g[1].ns, g[1].type, g[1].nil, el)

\* The parts of WS-Addressing which requests use (the texts are taken to be URIs).
WsaText == {"MessageID", "To", "Action", "RelatesTo", "ProblemIRI"}
WsaReference == {"EndpointReference", "ReplyTo", "From", "FaultTo"}
ForeignOnly(el) == \A j \in 1..Len(el.a) : el.a[j].ns \notin {"", WSA, XSI}
WsaTextFaults(el) ==
    (IF el.k = <<>> THEN {} ELSE {"elements in " \o el.n})
    \cup (IF ForeignOnly([el EXCEPT !.a = SelectSeq(@, LAMBDA at : ~(el.n = "RelatesTo" /\ at.ns = "" /\ at.n = "RelationshipType"))])
          THEN {} ELSE {"attributes of " \o el.n})
\* Texts which are URIs beyond doubt; others may be refused.
PlainUri(x) == Trim(x) = <<>> \/ (/\ \A j \in 1..Len(Trim(x)) : LET ch == Trim(x)[j] IN ch \in (45..58) \cup (65..90) \cup (97..122) \cup {95}
                                /\ Trim(x)[1] \in (65..90) \cup (97..122))
DoubtfulUris(hs) ==
    hs # <<>> /\ \E j \in 1..Len(hs[1].k) :
        LET block == hs[1].k[j]
        IN  block.ns = WSA /\ (~PlainUri(block.x) \/ \E x \in 1..Len(block.k) : block.k[x].ns = WSA /\ ~PlainUri(block.k[x].x))
WsaFaults(el) ==
    IF el.n \in WsaText THEN WsaTextFaults(el)
    ELSE IF el.n \in WsaReference
    THEN (IF ForeignOnly(el) THEN {} ELSE {"attributes of " \o el.n})
         \cup (IF Trim(el.x) = <<>> THEN {} ELSE {"text in " \o el.n})
         \cup (IF el.k = <<>> \/ el.k[1].n # "Address" \/ el.k[1].ns # WSA THEN {"no address in " \o el.n}
               ELSE WsaTextFaults(el.k[1]))
         \cup UNION {LET kid == el.k[j]
                     IN  IF kid.ns = "" THEN {"unqualified element in " \o el.n}
                         ELSE IF kid.ns # WSA THEN {}
                         ELSE IF ~ForeignOnly(kid) \/ Trim(kid.x) # <<>> THEN {"attributes or text of " \o kid.n}
                         ELSE IF kid.n = "ReferenceParameters" /\ j = 2 THEN {}
                         ELSE IF kid.n = "Metadata" /\ (j = 2 \/ (j = 3 /\ el.k[2].ns = WSA /\ el.k[2].n = "ReferenceParameters")) THEN {}
                         ELSE {"misplaced " \o kid.n} : j \in 2..Len(el.k)}
    ELSE {"not an element of WS-Addressing: " \o el.n}

\* Why the header (a sequence of at most one element) is not acceptable.
HeaderFaults(s, hs) ==
    IF hs = <<>> THEN {}
    ELSE UNION {LET block == hs[1].k[j]
                IN  IF block.ns = WSA THEN WsaFaults(block)
                    ELSE IF s.strict THEN GlobalFaults(s, block) ELSE {} : j \in 1..Len(hs[1].k)}

(***************************************************************************)
(* Routing: the number of the operation, 0 if there is none.                 *)
(***************************************************************************)
FirstOp(s, Test(_)) == LET S == {j \in 1..Len(s.ops) : Test(s.ops[j])} IN IF S = {} THEN 0 ELSE MinOf(S)
Route(s, q, el) ==
    LET action == Action(s, q)
        named == FirstOp(s, LAMBDA o : o.input = el.n)
        g == SelectSeq(s.elements, LAMBDA x : x.n = el.n)
    IN  IF action # <<>> THEN FirstOp(s, LAMBDA o : o.action = action)
        ELSE IF named # 0 THEN named
        ELSE IF g = <<>> \/ g[1].subst = "" THEN 0
        ELSE FirstOp(s, LAMBDA o : o.input = g[1].subst)

HeaderClass(s, o) == IF s.ops[o].inh # "" THEN s.ops[o].inh ELSE s.inh

(***************************************************************************)
(* What may happen to a request: "client" (a client fault) or the call of an  *)
(* operation with a body element and a header element.                       *)
(***************************************************************************)
Client == [k |-> "client"]
\* A header the schema refuses and nobody checks, with texts outside of their lexical space:
\* they may be read all the same.
Lax(s, o, hs) ==
    /\ hs # <<>> /\ ~s.strict /\ HeaderClass(s, o) # ""
    /\ \E j \in 1..Len(hs[1].k) : hs[1].k[j].ns # WSA /\ GlobalFaults(s, hs[1].k[j]) # {}
    /\ Unreadable(s.model, HeaderClass(s, o), hs[1]) # {}
Verdict(s, q, hs, el) ==
    IF HeaderFaults(s, hs) # {} \/ GlobalFaults(s, el) # {} THEN Client
    ELSE LET o == Route(s, q, el)
         IN  IF o = 0 THEN Client
             ELSE IF Unreadable(s.model, s.ops[o].intype, el) # {} THEN Client
             ELSE IF hs # <<>> /\ HeaderClass(s, o) # "" /\ Unreadable(s.model, HeaderClass(s, o), hs[1]) # {}
                     /\ ~Lax(s, o, hs) THEN Client
             ELSE [k |-> "call", o |-> o, el |-> el, hs |-> hs]
Verdicts(s, q, hs, el) ==
    LET v == Verdict(s, q, hs, el)
    IN  {v} \cup (IF v.k = "call" /\ Lax(s, v.o, hs) THEN {Client} ELSE {})

Named(el, name) == SelectSeq(el.k, LAMBDA kid : kid.n = name)
Plain(el) == Trim(el.x) = <<>> /\ \A j \in 1..Len(el.a) : el.a[j].ns # XSI
\* The content is a SOAP envelope of the version of the service.
Proper(s, q) ==
    LET t == q.tree
        hs == Named(t, "Header")
        bs == Named(t, "Body")
    IN  /\ q.wf = "yes"
        /\ t.n = "Envelope" /\ t.ns = EnvNs(s) /\ Plain(t)
        /\ Len(bs) = 1 /\ Len(hs) <= 1 /\ Len(t.k) = Len(hs) + 1 /\ t.k[Len(t.k)].n = "Body"
        /\ \A j \in 1..Len(t.k) : t.k[j].ns = EnvNs(s) /\ Plain(t.k[j])
        /\ Len(bs[1].k) <= 1
Outcomes(s, q) ==
    IF q.wf = "no" THEN {Client}
    ELSE LET hs == Named(q.tree, "Header")
             bs == Named(q.tree, "Body")
             Els == UNION {{bs[j].k[x] : x \in 1..Len(bs[j].k)} : j \in 1..Len(bs)}
         IN  IF Els = {} THEN {Client}
             ELSE IF Proper(s, q)
             THEN Verdicts(s, q, hs, bs[1].k[1]) \cup (IF IsNil(bs[1].k[1]) \/ DoubtfulUris(hs) THEN {Client} ELSE {})  \* nil is no input
             ELSE {Client} \cup UNION {Verdicts(s, q, h, el) : h \in {<<>>} \cup {<<hs[j]>> : j \in 1..Len(hs)}, el \in Els}

(***************************************************************************)
(* What travels back through the middlewares.                                *)
(*   [k |-> "resp"/"obj"/"raise", id, bid, err, code, msg, hasmsg, cls, mro,   *)
(*    body, uncap, hdr, status, xh]                                          *)
(* id is the identity of the Python object, bid that of its SOAP body; err:    *)
(* the body is a SOAP error with code and message.                           *)
(***************************************************************************)
ClientCode(s) == IF s.version = "soap11" THEN <<67, 108, 105, 101, 110, 116>> ELSE <<110, 115, 48, 58, 83, 101, 110, 100, 101, 114>>
ServerCode(s) == IF s.version = "soap11" THEN <<83, 101, 114, 118, 101, 114>>
                 ELSE <<110, 115, 48, 58, 82, 101, 99, 101, 105, 118, 101, 114>>

\* A WS-Addressing header filled as the answer to another (or to none): it relates to it, has an identifier of its own,
\* and everything else is as it was.
Anonymous == <<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 119, 51, 46, 111, 114, 103, 47, 50, 48, 48, 53, 47, 48, 56, 47, 97, 100, 100,
               114, 101, 115, 115, 105, 110, 103, 47, 97, 110, 111, 110, 121, 109, 111, 117, 115>>
ResponseText == <<82, 101, 115, 112, 111, 110, 115, 101>>
Filled(e) ==
    LET f == e.dst.f
        b == e.before.f
        Text(v) == IF v.t = "str" THEN v.s ELSE <<>>
    IN  IF ~e.ok THEN {"a WS-Addressing header cannot be filled"}
        ELSE (IF f.To.t = "str" /\ f.To.s = Anonymous THEN {} ELSE {"the answer is not addressed to the anonymous address"})
             \cup (IF f.MessageID.t = "str" /\ Text(f.MessageID) # <<>> /\ (\A j \in 1..Len(e.seen) : e.seen[j] # Text(f.MessageID)) THEN {}
                   ELSE {"the identifier of the answer is not its own"})
             \cup (IF f.ReplyTo = b.ReplyTo THEN {} ELSE {"the filled header replies to another address"})
             \cup (IF e.src = None THEN (IF f.Action = b.Action /\ f.RelatesTo = b.RelatesTo THEN {} ELSE {"a header filled for no request answers one"})
                   ELSE (IF f.Action.t = "str" /\ f.Action.s = e.src.f.Action.s \o ResponseText THEN {} ELSE {"wrong action of the answer"})
                        \cup (IF f.RelatesTo = e.src.f.MessageID THEN {} ELSE {"the answer does not relate to its request"}))
             \cup (IF e.after = e.src THEN {} ELSE {"filling a header changes the header of the request"})

\* Two reports of the same thing at different times, nobody having touched it in between.
SameResult(a, b) == a = b

Differences(s, want, got) ==
    CASE want.k = "client" ->
           IF got.k = "raise" /\ got.err /\ got.code = ClientCode(s) THEN {}
           ELSE IF got.k = "raise" /\ ~got.err THEN {"an unacceptable request raises another exception"}
           ELSE {"an unacceptable request is not a client fault"}
      [] want.k = "wrap" ->  \* the handler returned an object, the dispatcher makes a response of it
           IF got.k # "resp" THEN {"the object a handler returned is no response"}
           ELSE (IF got.bid = want.v.id THEN {} ELSE {"another object than the handler returned"})
                \cup (IF got.hdr = None /\ got.status = 200 THEN {} ELSE {"the response of a handler has got a header or status"})
      [] want.k = "same" -> IF got = want.v THEN {} ELSE {"not the result of the successor"}

ColonSpace == <<58, 32>>
Traceback == <<84, 114, 97, 99, 101, 98, 97, 99, 107>>
Within(part, text) ==
    part = <<>> \/ \E j \in 1..(Len(text) - Len(part) + 1) :
        text[j] = part[1] /\ text[j + Len(part) - 1] = part[Len(part)] /\ SubSeq(text, j, j + Len(part) - 1) = part
\* What the exception-to-fault middleware makes of a result.
FaultOf(s, mw, b, got) ==
    IF b.k # "raise" THEN (IF got = b THEN {} ELSE {"the exception middleware changed a result"})
    ELSE IF got.k # "obj" \/ ~got.err THEN {"the exception middleware did not return an error"}
    ELSE IF b.err THEN (IF got.id = b.id /\ got.code = b.code /\ got.msg = b.msg THEN {} ELSE {"not the error raised"})
    ELSE (IF got.code = ServerCode(s) THEN {} ELSE {"not a server fault"})
         \cup (IF (mw.tb /\ Within(Traceback, got.msg) /\ Within(b.cls, got.msg) /\ Within(b.msg, got.msg))
                  \/ (~mw.tb /\ got.msg = b.cls \o ColonSpace \o b.msg) THEN {} ELSE {"not the class and text of the exception"})

(***************************************************************************)
(* The answer: what is rendered for a result.                                *)
(***************************************************************************)
Printable(ch) == ch \in {9, 10, 13} \/ (ch >= 32 /\ ch <= 55295) \/ (ch >= 57344 /\ ch <= 65533) \/ ch >= 65536
XmlText(a) == [j \in 1..Len(a) |-> IF Printable(a[j]) THEN a[j] ELSE 65533]

KnownHeader == "KNOWN header parts are rendered in the namespace of the envelope"
\* A header object and its element: its parts are global elements, so always qualified.
HeaderMirror(s, hdr, el) ==
    LET m == s.model
        items == Items(m, "", hdr.c, hdr)
        SQ(it) == IF IsSimple(m, it.f.type) THEN TRUE ELSE m.types[it.f.type].sq
        Block(it, ns, q, kid) ==
            IF kid.n # it.f.tag \/ kid.ns # ns THEN {"wrong header part " \o kid.n}
            ELSE IF IsSimple(m, it.f.type)
            THEN (IF kid.k = <<>> /\ Denotes(m.types[it.f.type].type, kid.x, it.v) THEN {} ELSE {"wrong text of header part " \o kid.n})
            ELSE Mirror(m, q, ns, it.v, kid)
        Right == UNION {Block(items[j], items[j].ns, SQ(items[j]), el.k[j]) : j \in 1..Len(items)}
        Wrong == UNION {Block(items[j], IF items[j].f.ns # <<>> THEN items[j].ns ELSE EnvNs(s), SQ(items[j]), el.k[j]) : j \in 1..Len(items)}
    IN  IF Len(el.k) # Len(items) THEN {"wrong number of header parts"}
        ELSE IF Right = {} THEN {}
        ELSE IF Wrong = {} THEN {KnownHeader} ELSE Right

EnvelopeFaults(s, t) ==
    IF t.n = "Envelope" /\ t.ns = EnvNs(s) /\ Len(t.k) >= 1 /\ Len(t.k) <= 2
       /\ t.k[Len(t.k)].n = "Body" /\ t.k[Len(t.k)].ns = EnvNs(s)
       /\ (Len(t.k) = 1 \/ (t.k[1].n = "Header" /\ t.k[1].ns = EnvNs(s)))
    THEN {} ELSE {"not an envelope of the version of the service"}

HeaderAnswer(s, hdr, t) ==
    IF hdr = None THEN (IF Len(t.k) = 1 THEN {} ELSE {"a header nobody has set"})
    ELSE IF Len(t.k) = 1 THEN {"the header of the response is missing"}
    ELSE HeaderMirror(s, hdr, t.k[1])

Is(el, ns, n) == el.ns = ns /\ el.n = n
HasLanguage(el) == \E j \in 1..Len(el.a) : el.a[j].ns = "http://www.w3.org/XML/1998/namespace" /\ el.a[j].n = "lang" /\ el.a[j].v # <<>>
FaultAnswer(s, v, body, codename) ==
    LET e == EnvNs(s)
        f == body.k[1]
        text == IF v.hasmsg THEN XmlText(v.msg) ELSE <<>>
    IN  IF Len(body.k) # 1 \/ ~Is(body.k[1], e, "Fault") THEN {"no fault in the body"}
        ELSE IF s.version = "soap11"
        THEN IF Len(f.k) \in {1, 2, 3} /\ Is(f.k[1], "", "faultcode")
                /\ (IF Len(f.k) = 1 THEN text = <<>> ELSE Is(f.k[2], "", "faultstring"))
             THEN (IF f.k[1].x = v.code THEN {} ELSE {"wrong fault code"})
                  \cup (IF Len(f.k) = 1 \/ f.k[2].x = text THEN {} ELSE {"wrong fault string"})
             ELSE {"not a SOAP 1.1 fault"}
        ELSE IF Len(f.k) \in {2, 3} /\ Is(f.k[1], e, "Code") /\ Is(f.k[2], e, "Reason")
                /\ Len(f.k[1].k) = 1 /\ Is(f.k[1].k[1], e, "Value")
                /\ (IF f.k[2].k = <<>> THEN text = <<>> ELSE Len(f.k[2].k) = 1 /\ Is(f.k[2].k[1], e, "Text"))
             THEN (IF f.k[1].k[1].x = v.code THEN {} ELSE {"wrong fault code"})
                  \cup (IF v.code \notin {ClientCode(s), ServerCode(s)} \/ codename = e THEN {} ELSE {"the fault code is no name of SOAP"})
                  \cup (IF f.k[2].k = <<>> \/ f.k[2].k[1].x = text THEN {} ELSE {"wrong fault text"})
                  \cup (IF f.k[2].k = <<>> \/ HasLanguage(f.k[2].k[1]) THEN {} ELSE {"the fault text has no language"})
             ELSE {"not a SOAP 1.2 fault"}

\* names: the names the body element may have.
ResultAnswer(s, v, body, names) ==
    IF v.body = None THEN (IF body.k = <<>> THEN {} ELSE {"a body for no object"})
    ELSE IF Len(body.k) # 1 THEN {"not exactly one element in the body"}
    ELSE LET el == body.k[1]
             t == s.model.types[v.body.c]
         IN  (IF el.n \in names THEN {} ELSE {"wrong name of the response element " \o el.n})
             \cup (IF el.ns = t.sns[1] THEN {} ELSE {"wrong namespace of the response element " \o el.n})
             \cup Mirror(s.model, t.sq, t.sns[1], v.body, el)

Texts == [xml11 |-> "text/xml", xml12 |-> "application/soap+xml"]
\* v: the result which reached the dispatcher; out: [status, ctype, xh, wf, tree, codens]
AnswerFaults(s, v, names, out) ==
    (IF out.status = (IF v.err THEN 500 ELSE v.status) THEN {} ELSE {"wrong HTTP status"})
    \cup (IF out.ctype = (IF s.version = "soap11" THEN Texts.xml11 ELSE Texts.xml12) THEN {} ELSE {"wrong content type"})
    \cup (IF out.xh = v.xh THEN {} ELSE {"wrong extra HTTP headers"})
    \cup (IF ~out.wf THEN {"the answer is not well-formed"}
          ELSE IF EnvelopeFaults(s, out.tree) # {} THEN EnvelopeFaults(s, out.tree)
          ELSE LET body == out.tree.k[Len(out.tree.k)]
               IN  HeaderAnswer(s, IF v.k = "resp" THEN v.hdr ELSE None, out.tree)
                   \cup (IF v.err THEN FaultAnswer(s, v, body, out.codens) ELSE ResultAnswer(s, v, body, names)))

\* The answers which are no SOAP messages.
Found(s, q) ==
    LET vs == SelectSeq(q.query, LAMBDA p : p.k = "xsd")
    IN  \E j \in 1..Len(s.locations) : s.locations[j] = (IF vs[1].v = <<>> THEN <<120, 115, 100>> ELSE vs[1].v)
DocumentFaults(s, q, out) ==
    LET kind == Kind(q)
        want == CASE kind = "wsdl" -> [status |-> 200, ctype |-> "text/xml"]
                  [] kind = "xsd" /\ Found(s, q) -> [status |-> 200, ctype |-> "text/xml"]
                  [] kind = "xsd" -> [status |-> 404, ctype |-> "text/plain"]
                  [] OTHER -> [status |-> 400, ctype |-> "text/plain"]
    IN  (IF out.status = want.status THEN {} ELSE {"wrong HTTP status of a document"})
        \cup (IF out.ctype = want.ctype THEN {} ELSE {"wrong content type of a document"})
        \cup (IF want.ctype # "text/xml" \/ (out.wf /\ out.tree.n = (IF kind = "wsdl" THEN "definitions" ELSE "schema")) THEN {}
              ELSE {"not the document asked for"})
=============================================================================
