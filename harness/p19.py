"""P19: WSDL generated for services, and code generated from WSDL (spec/Wsdl.tla, WsdlTrace.tla)."""
import copy
import os
import tempfile
from xml.sax.saxutils import quoteattr

import requests
from lxml import etree

import commands
import dispatching
import fastjinja  # noqa: F401
import vlib
import wsdlgen
from dispatching import ServiceGenerator
from model import NONE, Presenter, parse_tree
from p09 import Wire
from p18 import limited
from schemas import regular
from simple import call, cps
from soapfish import core, py2wsdl, py2xsd, soap_dispatch, wsdl2py, xsd
from xsdgen import Generated

LOCATIONS = ['${scheme}://${host}/ws', '${scheme}://${host}/a/b?c=d', 'http://fixed.example/ws', 'https://h:8443/x?a=1&b=2', '${scheme}://x.${host}/${scheme}', "http://h/it's",
             'http://${host}/ws', 'http://h/a$b']
NAMES = wsdlgen.NAMES


class Silent:
    """A recorder of requests and replies for p09.Wire."""

    def __init__(self):
        self.urls = []

    def emit(self, op, **kw):
        if op == 'wire':
            self.urls.append(kw['url'])


def schema_documents(schemas):
    """location -> text of all the schemas which others refer to."""
    docs, pending = {}, list(schemas)
    while pending:
        x = pending.pop()
        for y in [*x.imports, *x.includes]:
            if y.location not in docs:
                docs[y.location] = etree.tostring(py2xsd.generate_xsd(y))
                pending.append(y)
    return docs


def content(owner, value, name):
    if value is None:
        return {'k': 'none', 'q': {'ns': '', 'n': ''}}
    if isinstance(value, str):
        return {'k': 'element', 'q': {'ns': owner.tns, 'n': value}}
    return {'k': 'type', 'q': {'ns': owner.tns, 'n': name[0].lower() + name[1:]}}


def listed(m, cls):
    return any(cls is c for x in [m.schema, *m.schema.includes] for c in x.complexTypes)


def make_service(r, g):
    """A service of python code, whose methods may have classes or nothing as outputs."""
    s = g.service(headers=0, wsa=0, same_input=0, imports=0.5)
    taken, ops = set(), []
    s.calls = []
    for op, m in zip(s.ops, s.methods):
        owner = g.owner(s.models, op.input['n'])
        outer = g.owner(s.models, op.output['n'])
        odd = r.choice(NAMES)
        if r.random() < 0.3 and odd.lower() not in taken and odd not in g.taken:
            taken.add(odd.lower())
            m.operationName = op.name = odd
        elif ops and r.random() < 0.15:  # names may differ in case only
            other = r.choice(ops)['n'].swapcase()
            if other.isidentifier() and other not in NAMES and other not in g.taken and other not in {x.name for x in s.ops}:
                m.operationName = op.name = other
        m.style = r.choice(['document', 'document', 'document', 'rpc'])
        way = r.random()
        if isinstance(m.output, type) and not listed(outer, m.output):
            m.output = op.output['n']  # a part of a message may only refer to types which the schemas list
        if way < 0.1 and listed(owner, owner.classes[op.input['type']]):
            m.input = owner.classes[op.input['type']]
        if r.random() < 0.1:
            m.output = None
        ops.append({'n': op.name, 'action': op.action, 'style': m.style, 'in': content(owner, m.input, op.input['type']),
                    'out': content(outer, m.output, op.output['type'])})
        if isinstance(m.input, str) and (m.output is None or isinstance(m.output, str)):
            s.calls.append((op.name, (owner, op.input), m.output and (outer, op.output)))
    s.service.name = r.choice(['Service', 'My_Service', 'Shop', 'my-service', 'class', 'été'])
    s.service.targetNamespace = r.choice(['urn:service', s.m.tns, "urn:it's", 'http://x.org/?a=1&b=2'])
    s.service.location = r.choice(LOCATIONS)
    spec = {'n': s.service.name, 'tns': s.service.targetNamespace, 'address': cps(s.service.location), 'version': s.version, 'ops': ops}
    spec['elements'] = [{'ns': m.tns, 'n': el['n']} for m in s.models for el in m.elements.values()]
    spec['substs'] = [{'q': {'ns': m.tns, 'n': el['n']}, 'head': {'ns': m.tns, 'n': el['subst']}} for m in s.models for el in m.elements.values() if el.get('subst')]
    return s, spec


def find_schema(schemas, tns, name):
    pending = list(schemas)
    seen = []
    while pending:
        x = pending.pop(0)
        if any(x is y for y in seen):
            continue
        seen.append(x)
        if x.targetNamespace == tns and name in x.elements:
            return x
        pending += [*x.imports, *x.includes]
    return None


class Acceptor:
    """The documents which the schemas of a WSDL document allow, except those with attributes of nil elements: objects have none there."""

    def __init__(self, text, docs):
        self.docs = dict(docs)
        imports = []
        for k, schema in enumerate(etree.fromstring(text).iter('{http://www.w3.org/2001/XMLSchema}schema')):
            self.docs[f'inline{k}'] = etree.tostring(schema)
            imports.append((schema.get('targetNamespace'), f'inline{k}'))
        parser = etree.XMLParser()
        parser.resolvers.add(Resolver(lambda url: self.docs.get(url) or self.docs.get(os.path.basename(url))))
        xml = '<schema xmlns="http://www.w3.org/2001/XMLSchema">{}</schema>'.format(''.join(
            f'<import namespace={quoteattr(tns)} schemaLocation="{location}"/>' for tns, location in imports))
        self.validator = etree.XMLSchema(etree.fromstring(xml, parser))

    def __call__(self, doc):
        tree = etree.fromstring(doc)
        if any(len(x.attrib) > 1 for x in tree.iter('*') if x.get(NIL) is not None):
            return False
        return self.validator.validate(tree)


class Resolver(etree.Resolver):

    def __init__(self, find):
        super().__init__()
        self.find = find

    def resolve(self, url, id_, context):
        found = self.find(url)
        return self.resolve_string(found, context, base_url=url) if found is not None else None


NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'


def text_only(text):
    """What is no document at all."""
    return {'ns': '', 'n': '', 'a': [], 'k': [], 'x': cps(text)}


class Pair:
    """The client's and the server's module generated from the same WSDL."""

    def __init__(self, r, client, server, accepts):
        self.r, self.client, self.server, self.accepts = r, client, server, accepts

    def parsed(self, module_service, m, el, doc):
        """An object of a document, of the classes of a module."""
        schema = find_schema(module_service.schemas, m.tns, el['n'])
        if schema is None:
            return None
        element = copy.copy(schema.elements[el['n']])
        element.tagname = el['n']
        cls = type('Doc', (xsd.Document,), {'NAMESPACE': m.tns, 'Root': element})
        ok, _, obj = call(lambda: cls.parsexml(doc).Root)
        return obj if ok and isinstance(obj, xsd.ComplexType) else None

    def object(self, module_service, m, el):
        """An object of the element which can be rendered, and its document."""
        r = self.r
        for _ in range(10):
            tree = regular(m, m.gen.element_tree(m, el, bad=0), el)
            doc = Presenter(r, plain=True).document(tree)
            if not self.accepts(doc):
                continue
            obj = self.parsed(module_service, m, el, doc)
            if obj is None:
                continue
            ok, tree = self.shown(obj)
            if ok:
                return obj, tree
        return None, None

    def shown(self, obj):
        if not isinstance(obj, xsd.ComplexType):
            return True, text_only(repr(obj))
        ok, _, xml = call(lambda: obj.xml('x'))
        return ok, parse_tree(xml) if ok else text_only('not rendered')

    def head(self, service, cls, elements):
        """A header object: (object, its parts)."""
        if cls is None or self.r.random() < 0.3:
            return None, []
        hdr, parts = cls(), []
        for py, element in wsdlgen.header_parts(cls).items():
            if element.namespace:
                found = [(m, el) for m, el in elements if el['n'] == (element.tagname or py)][:1]
            else:  # a part of a type: the content of some element of that type
                found = list(elements)
                self.r.shuffle(found)
            found = [(m, el) for m, el in found if not m.is_simple(el['type'])]
            for m, el in found:
                value, tree = self.object(service, m, el)
                if value is not None and call(lambda: setattr(hdr, py, value))[0]:
                    parts.append(tree)
                    break
                if element.namespace:
                    return None, []
            else:
                return None, []
        return hdr, parts

    def parts(self, hdr):
        if hdr is None:
            return []
        return [self.shown(getattr(hdr, py))[1] for py in wsdlgen.header_parts(type(hdr)) if getattr(hdr, py) is not None]

    def calls(self, name, ops, elements, events, source):
        """Calls of the stub of the port through to the functions of the server: ops: [(operation, (model, in), (model, out))]."""
        server = next((s for s in vars(self.server).values() if isinstance(s, wsdlgen.soap.Service) and s.name == name), None)
        stub = next((c for c in wsdlgen.stub_classes(self.client) if c.SERVICE.name == name), None)
        if server is None or stub is None:
            return  # the events about the code say so
        stub = stub()
        rec = Silent()
        wire = Wire(rec)
        # Parts of types are no elements of the schema, so that they can not be valid.
        strict = all(e.namespace for x in server.methods if x.input_header for e in wsdlgen.header_parts(x.input_header).values())
        ok, exc, dispatcher = call(lambda: soap_dispatch.SOAPDispatcher(server, strict_soap_header=strict))
        if not ok:
            events.append({'op': 'serve', 'ok': False, 'args': f'{exc} {dispatcher} {source}'})
            return
        wire.app = soap_dispatch.WsgiSoapApplication(dispatcher)
        requests.adapters.HTTPAdapter.send = lambda adapter, request, **kw: wire.send(adapter, request, **kw)
        seen = {}

        def handler(o):
            def function(request, body):
                seen.setdefault('handler', []).append(o)
                seen['got'] = [self.shown(body)[1]]
                seen['hgot'] = self.parts(request.soap_header)
                return seen['answer']
            return function
        for m in server.methods:
            m.function = handler(m.operationName)
        for o, (m, el), out in ops:
            param, sent = self.object(stub.service, m, el)
            answer, ret = self.object(server, *out) if out else (None, None)
            if param is None or (out and answer is None):
                continue
            method = stub.service.get_method(o)
            hdr, hsent = self.head(stub.service, method.input_header, elements)
            typed = hdr is not None and not all(e.namespace for e in wsdlgen.header_parts(type(hdr)).values())
            if hdr is None and method.input_header is not None and self.r.random() < 0.5:
                hdr = None
            seen.clear()
            seen['answer'] = answer
            rec.urls.clear()
            ok, exc, result = call(lambda: stub.call(o, param, header=hdr))
            if not ok:
                shown = [text_only(f'{exc} {result}')]
            else:
                shown = [] if result.soap_body is None else [self.shown(result.soap_body)[1]]
            if typed:  # nothing says which namespaces the contents have
                hsent, seen['hgot'] = [], []
            events.append({'op': 'call', 'o': o, 'location': cps(stub.location), 'url': rec.urls[:], 'handler': seen.get('handler', []),
                           'sent': [sent], 'got': seen.get('got', []), 'hsent': hsent, 'hgot': seen.get('hgot', []),
                           'ret': [ret] if out else [], 'result': shown, 'args': source[:6000]})


def modules(r, w, text, docs, events, both, use_wsa=None):
    """Code for clients and servers from the WSDL."""
    found = {}
    with tempfile.TemporaryDirectory(prefix='p19-') as tmp:
        for name, doc in docs.items():
            with open(os.path.join(tmp, os.path.basename(name)), 'wb') as f:
                f.write(doc)
        for target in ('client', 'server'):
            if not both and r.random() < 0.3:
                continue
            wsa = r.random() < 0.2 if use_wsa is None else use_wsa
            ok, exc, code = call(lambda: limited(lambda: wsdl2py.generate_code_from_wsdl(
                text, target, use_wsa=wsa, encoding=r.choice(['utf-8', None]), cwd=tmp)))
            if not ok:
                events.append(dict(wsdlgen.NO_CODE, target=target, args=f'{exc} {code} {text.decode()}'))
                continue
            gen = Generated(code)
            source = (code if isinstance(code, str) else code.decode()) + text.decode()
            ok, exc, module = call(gen.load)
            if not ok:
                events.append(dict(wsdlgen.NO_CODE, target=target, args=f'{exc} {module} {source}'))
            else:
                ok, exc, e = call(lambda: wsdlgen.code_event(w, target, wsa, gen))
                events.append(dict(e if ok else wsdlgen.NO_CODE, args=f'{exc} {e if not ok else ""} {source}'))
                if ok:
                    found[target] = gen
                found['wsa'] = found.get('wsa', False) or wsa
    return found


def from_service(r):
    g = ServiceGenerator(r)
    while True:
        s, spec = make_service(r, g)
        if len({op.action for op in s.ops if op.action}) == sum(1 for op in s.ops if op.action):
            break
        s.close()
    events, found = [], {}
    try:
        for m in s.models:
            m.gen = g
        if r.random() < 0.7:
            ok, exc, text = call(lambda: etree.tostring(py2wsdl.generate_wsdl(s.service)))
        else:
            ok, exc, text = call(lambda: commands.document(py2wsdl.main, 'SERVICE', s.service, r.random() < 0.3))
        docs = schema_documents(s.service.schemas)
        w = wsdlgen.abstract(text, docs) if ok else wsdlgen.NO_WSDL
        events.append({'op': 'wsdl', 'ok': ok, 'w': w, 'args': f'{exc} {text}'})
        if ok and w['wf']:
            found = modules(r, w, text, docs, events, True)
            if 'client' in found and 'server' in found and not found['wsa']:
                ok, exc, acceptor = call(lambda: Acceptor(text, docs))
                if not ok:
                    events.append({'op': 'serve', 'ok': False, 'args': f'the schemas are not valid: {exc} {acceptor} {text.decode()}'})
                else:
                    pair = Pair(r, found['client'].module, found['server'].module, acceptor)
                    pair.calls(spec['n'] + 'Port', s.calls, [], events, text.decode())
        return {'service': spec, 'w': w, 'events': events}
    finally:
        for gen in found.values():
            if isinstance(gen, Generated):
                gen.close()
        s.close()


def from_document(r):
    g = wsdlgen.WsdlGenerator(r).build()
    w = wsdlgen.abstract(g.text, {})
    events, found = [], {}
    try:
        found = modules(r, w, g.text, {}, events, r.random() < 0.5)
        if 'client' in found and 'server' in found and not found['wsa'] and len(g.models) == 1 and not g.models[0].grouped:
            pair = Pair(r, found['client'].module, found['server'].module, Acceptor(g.text, {}))
            for svc in g.services:
                for p in svc['ports']:
                    if p['b']['kind'] != 'soap':
                        continue
                    ops = g.callable(p['b'])
                    pair.calls(p['n'], ops, g.elements, events, g.text.decode())
    finally:
        for gen in found.values():
            if isinstance(gen, Generated):
                gen.close()
    return {'service': {'n': '', 'tns': '', 'address': [], 'version': '', 'ops': [], 'elements': [], 'substs': []}, 'w': w, 'events': events}


def generate(r, first, count):
    send = requests.adapters.HTTPAdapter.send
    try:
        return [from_service(r) if k % 2 else from_document(r) for k in range(first, first + count)]
    finally:
        requests.adapters.HTTPAdapter.send = send


def body(check):
    cases = vlib.generate(generate, 'p19', vlib.scale(600, 6000))
    check.sample(cases[0])
    for start in range(0, len(cases), 1500):
        check.validate('WsdlTrace', cases[start:start + 1500], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P19', body))
