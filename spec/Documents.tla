----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* The documents a service publishes over HTTP (P06): which request gets      *)
(* which document, where the documents say the others are, and what is put    *)
(* into the address of the service.  Texts are sequences of bytes (UTF-8).    *)
(*                                                                          *)
(* A service: schemas: <<[loc (<<>>: none), tns, imports, includes, digest]>>  *)
(*   imports/includes: indexes into schemas, in order; digest: the content    *)
(*   of the schema apart from locations; roots: indexes of the schemas of the  *)
(*   service; address: template; wsdl: digest of the WSDL apart from locations *)
(*   and addresses; version.                                                 *)
(* A request: [method, query (raw), host, proto: <<>> or <<text>>, url: text]  *)
(***************************************************************************)
EXTENDS Text

Hex(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE IF ch \in 97..102 THEN ch - 87 ELSE 16
\* The bytes a part of a query stands for.
RECURSIVE Percent(_)
Percent(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF t[1] = 43 THEN <<32>> \o Percent(Tail(t))
    ELSE IF t[1] = 37 /\ Len(t) >= 3 /\ Hex(t[2]) < 16 /\ Hex(t[3]) < 16
    THEN <<16 * Hex(t[2]) + Hex(t[3])>> \o Percent(SubSeq(t, 4, Len(t)))
    ELSE <<t[1]>> \o Percent(Tail(t))

SplitAt(t, sep) ==
    LET Add(acc, ch) == IF ch = sep THEN [parts |-> Append(acc.parts, acc.cur), cur |-> <<>>] ELSE [acc EXCEPT !.cur = Append(@, ch)]
        r == FoldLeft(Add, [parts |-> <<>>, cur |-> <<>>], t)
    IN  Append(r.parts, r.cur)
\* The parameters of a query: <<[k, v]...>>.
Parameters(query) ==
    LET parts == SelectSeq(SplitAt(query, 38), LAMBDA p : p # <<>>)
        Pair(p) == LET at == Positions(p, 61)
                   IN  IF at = {} THEN [k |-> Percent(p), v |-> <<>>]
                       ELSE [k |-> Percent(SubSeq(p, 1, MinOf(at) - 1)), v |-> Percent(SubSeq(p, MinOf(at) + 1, Len(p)))]
    IN  [j \in 1..Len(parts) |-> Pair(parts[j])]

WSDL == <<119, 115, 100, 108>>
SINGLE == <<115, 105, 110, 103, 108, 101, 87, 115, 100, 108>>
XSD == <<120, 115, 100>>
GET == <<71, 69, 84>>
POST == <<80, 79, 83, 84>>

RequestKind(q) ==
    LET ps == Parameters(q.query)
        Has(name) == \E j \in 1..Len(ps) : ps[j].k = name
    IN  CASE q.method = GET /\ (Has(WSDL) \/ Has(SINGLE)) -> "wsdl"
          [] q.method = GET /\ Has(XSD) -> "xsd"
          [] q.method = POST -> "soap"
          [] OTHER -> "bad"
Asked(q) ==
    LET ps == SelectSeq(Parameters(q.query), LAMBDA p : p.k = XSD)
    IN  IF ps[1].v = <<>> THEN XSD ELSE ps[1].v

(***************************************************************************)
(* The schemas which can be asked for: those the service's own refer to.      *)
(***************************************************************************)
Edges(s, x) == {s.schemas[x].imports[j] : j \in 1..Len(s.schemas[x].imports)}
               \cup {s.schemas[x].includes[j] : j \in 1..Len(s.schemas[x].includes)}
RECURSIVE Closure(_, _)
Closure(s, S) == LET T == S \cup UNION {Edges(s, x) : x \in S} IN IF T = S THEN S ELSE Closure(s, T)
Roots(s) == {s.roots[j] : j \in 1..Len(s.roots)}
Referred(s) == UNION {Edges(s, x) : x \in Closure(s, Roots(s))}
\* A schema without a location is no document: what only it refers to is referred to by no document.
RECURSIVE Read(_, _)
Read(s, S) == LET T == S \cup UNION {{y \in Edges(s, x) : s.schemas[y].loc # <<>>} : x \in S} IN IF T = S THEN S ELSE Read(s, T)
Published(s) == {y \in UNION {Edges(s, x) : x \in Read(s, Roots(s))} : s.schemas[y].loc # <<>>}
Named(s, S, loc) == {x \in S : s.schemas[x].loc = loc /\ loc # <<>>}

(***************************************************************************)
(* Documents.  A reference: [kind, ns, at: <<>> or <<text>>].                 *)
(***************************************************************************)
\* The query of a relative reference to another document of the same entry.
QueryOf(ref) == IF ref # <<>> /\ ref[1] = 63 THEN <<Tail(ref)>> ELSE <<>>
Points(s, ref, x, kind) ==
    /\ ref.kind = kind
    /\ kind = "include" \/ ref.ns = s.schemas[x].tns
    /\ IF s.schemas[x].loc = <<>> THEN ref.at = <<>>
       ELSE /\ ref.at # <<>> /\ QueryOf(ref.at[1]) # <<>>
            /\ LET q == [method |-> GET, query |-> QueryOf(ref.at[1])[1]]
               IN  RequestKind(q) = "xsd" /\ Asked(q) = s.schemas[x].loc
SchemaFaults(s, x, refs) ==
    LET d == s.schemas[x]
        ims == SelectSeq(refs, LAMBDA ref : ref.kind = "import")
        ins == SelectSeq(refs, LAMBDA ref : ref.kind = "include")
    IN  (IF Len(ims) = Len(d.imports) /\ \A j \in 1..Len(ims) : Points(s, ims[j], d.imports[j], "import") THEN {}
         ELSE {"an import does not lead to its schema"})
        \cup (IF Len(ins) = Len(d.includes) /\ \A j \in 1..Len(ins) : Points(s, ins[j], d.includes[j], "include") THEN {}
              ELSE {"an include does not lead to its schema"})

\* ${name} replaced in a template.
SCHEME == <<36, 123, 115, 99, 104, 101, 109, 101, 125>>
HOST == <<36, 123, 104, 111, 115, 116, 125>>
RECURSIVE Filled(_, _, _)
\* (Nothing is replaced inside of what has been put in.)
Filled(t, scheme, host) ==
    LET Starts(what) == Len(t) >= Len(what) /\ SubSeq(t, 1, Len(what)) = what
    IN  IF t = <<>> THEN <<>>
        ELSE IF Starts(SCHEME) THEN scheme \o Filled(SubSeq(t, Len(SCHEME) + 1, Len(t)), scheme, host)
        ELSE IF Starts(HOST) THEN host \o Filled(SubSeq(t, Len(HOST) + 1, Len(t)), scheme, host)
        ELSE <<t[1]>> \o Filled(Tail(t), scheme, host)
Address(template, q) ==
    LET scheme == IF q.proto # <<>> THEN q.proto[1] ELSE q.url
    IN  IF q.host = <<>> \/ q.host[1] = <<>> \/ scheme = <<>> THEN template ELSE Filled(template, scheme, q.host[1])

\* a: [status, ctype, bytes (BOOLEAN), kind ("wsdl", "schema", "soap", "text"), digest, refs, schemas: <<refs>>, addresses, handlers]
AnswerFaults(s, q, a) ==
    LET kind == RequestKind(q)
        asked == Asked(q)
        sure == Named(s, Published(s), asked)
        may == Named(s, Referred(s) \cup Roots(s), asked)
        Status(n, ctype) == (IF a.status = n THEN {} ELSE {"wrong status"}) \cup (IF a.ctype = ctype THEN {} ELSE {"wrong content type"})
        Schema(x) == IF a.kind # "schema" THEN {"no schema document"}
                     ELSE SchemaFaults(s, x, a.refs) \cup (IF a.digest = s.schemas[x].digest THEN {} ELSE {"another schema"})
    IN  (IF a.bytes THEN {} ELSE {"the body is not bytes"})
        \cup (IF kind # "soap" /\ a.handlers # 0 THEN {"a handler runs"} ELSE {})
        \cup CASE kind = "soap" -> IF a.kind = "soap" THEN {} ELSE {"a POST request is answered with a document"}
               [] kind = "bad" -> Status(400, "text/plain") \cup (IF a.kind = "text" THEN {} ELSE {"no plain text"})
               [] kind = "wsdl" ->
                    Status(200, "text/xml")
                    \cup (IF a.kind # "wsdl" THEN {"no WSDL document"}
                          ELSE IF Len(a.schemas) # Len(s.roots) THEN {"not the schemas of the service"}
                          ELSE UNION {SchemaFaults(s, s.roots[j], a.schemas[j]) : j \in 1..Len(s.roots)}
                               \cup (IF a.addresses = <<Address(s.address, q)>> THEN {} ELSE {"wrong address of the service"})
                               \cup (IF a.digest = s.wsdl THEN {} ELSE {"another WSDL"}))
               [] kind = "xsd" ->
                    IF sure # {} THEN Status(200, "text/xml") \cup Schema(CHOOSE x \in sure : TRUE)
                    ELSE IF may # {} /\ a.status = 200 THEN Status(200, "text/xml") \cup Schema(CHOOSE x \in may : TRUE)
                    ELSE Status(404, "text/plain") \cup (IF a.kind = "text" THEN {} ELSE {"no plain text"})

\* The queries a document tells its readers to ask.
Refs(a) ==
    LET all == a.refs \o FoldLeft(LAMBDA x, y : x \o y, <<>>, a.schemas)
    IN  UNION {IF all[j].at = <<>> THEN {} ELSE {all[j].at[1]} : j \in 1..Len(all)}
=============================================================================
