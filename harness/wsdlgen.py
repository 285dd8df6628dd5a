"""WSDL documents (written without the library), what they say, and what code generated from them defines."""
import ast
import io
import os
import random
import re

import requests
from lxml import etree

from model import parse_tree, tree_of
from schemas import all_names
from simple import cps
from soapfish import soap, wsa, xsd
from xsdgen import Generated, XsdGenerator

WSDL = 'http://schemas.xmlsoap.org/wsdl/'
XS = 'http://www.w3.org/2001/XMLSchema'
SOAP = {'soap11': 'http://schemas.xmlsoap.org/wsdl/soap/', 'soap12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
HTTP = 'http://schemas.xmlsoap.org/soap/http'
NO_WSDL = {'wf': False, 'tns': '', 'services': [], 'bindings': [], 'portTypes': [], 'messages': [], 'elements': [], 'types': [], 'substs': [], 'typerefs': [], 'elementrefs': []}
NAMES = ['class', 'call', 'my-op', 'a.b', 'render', 'location', 'username', 'Größe', 'None', 'self', 'print', 'soap', 'xsd', 'SERVICE', 'header', 'request',
         'BaseHeader', '_x', 'service', 'import', 'get', 'Get-Item', 'lambda', '__init__', 'HOST', 'type', 'password', 'SCHEME', 'async']


# --- what a document says ----------------------------------------------------------------------------
def qname(node, text):
    prefix, _, name = text.strip().rpartition(':')
    ns = node.nsmap.get(prefix or None, '?' if prefix else '')
    return {'ns': ns, 'n': name}


def kids(node, name):
    return node.findall(f'{{{WSDL}}}{name}')


def extension(node, name):
    """The extension elements of a name: (namespace, element)."""
    return [(etree.QName(k).namespace, k) for k in node if isinstance(k.tag, str) and etree.QName(k).localname == name and etree.QName(k).namespace != WSDL]


def optional(node, name, conv=lambda node, text: text):
    return [conv(node, node.get(name))] if name in node.attrib else []


def declared(schema, docs, parent='', seen=None, refs=None):
    """The elements and types which a schema element and the documents it refers to declare."""
    seen = set() if seen is None else seen
    tns = schema.get('targetNamespace', parent)
    elements, types, substs = [], [], []
    if refs is not None:
        for node in schema.iter(f'{{{XS}}}*'):
            for name in ('type', 'base', 'ref', 'substitutionGroup'):
                q = qname(node, node.get(name, 'xs:'))
                if q['n'] and q['ns'] != XS and etree.QName(node).localname in ('element', 'attribute', 'extension', 'restriction') and not (name == 'ref' and node.tag != f'{{{XS}}}element'):
                    refs['elementrefs' if name in ('ref', 'substitutionGroup') else 'typerefs'].append(q)
    for kid in schema:
        if not isinstance(kid.tag, str):
            continue
        kind = etree.QName(kid).localname
        if kind == 'element':
            elements.append({'ns': tns, 'n': kid.get('name')})
            substs += [{'q': elements[-1], 'head': qname(kid, head)} for head in [kid.get('substitutionGroup')] if head]
        elif kind in ('complexType', 'simpleType'):
            types.append({'ns': tns, 'n': kid.get('name')})
        elif kind in ('import', 'include') and kid.get('schemaLocation') and kid.get('schemaLocation') not in seen:
            seen.add(kid.get('schemaLocation'))
            more = declared(etree.fromstring(docs[kid.get('schemaLocation')]), docs, tns, seen, refs)
            elements, types, substs = elements + more[0], types + more[1], substs + more[2]
    return elements, types, substs


def abstract(text, docs):
    """A WSDL document as spec/Wsdl.tla sees it."""
    try:
        root = etree.fromstring(text)
    except etree.XMLSyntaxError:
        return NO_WSDL
    if root.tag != f'{{{WSDL}}}definitions':
        return NO_WSDL
    w = dict(NO_WSDL, wf=True, tns=root.get('targetNamespace', ''))
    w['services'] = [{'n': s.get('name'), 'ports': [port(p) for p in kids(s, 'port')]} for s in kids(root, 'service')]
    w['bindings'] = [binding(b) for b in kids(root, 'binding')]
    w['portTypes'] = [{'n': p.get('name'), 'ops': [
        {'n': o.get('name'), 'in': [qname(x, x.get('message')) for x in kids(o, 'input')], 'out': [qname(x, x.get('message')) for x in kids(o, 'output')]}
        for o in kids(p, 'operation')]} for p in kids(root, 'portType')]
    w['messages'] = [{'n': m.get('name'), 'parts': [
        {'n': p.get('name'), 'element': optional(p, 'element', qname), 'type': optional(p, 'type', qname)} for p in kids(m, 'part')]}
        for m in kids(root, 'message')]
    elements, types, substs = [], [], []
    refs = {'typerefs': [], 'elementrefs': []}
    for t in kids(root, 'types'):
        seen = set()
        for schema in t.findall(f'{{{XS}}}schema'):
            more = declared(schema, docs, seen=seen, refs=refs)
            elements, types, substs = elements + more[0], types + more[1], substs + more[2]
    w['elements'], w['types'], w['substs'] = elements, types, substs
    w.update(refs)
    return w


def port(node):
    found = extension(node, 'address') or [('', etree.Element('none'))]
    return {'n': node.get('name'), 'binding': qname(node, node.get('binding')), 'addrns': found[0][0], 'address': cps(found[0][1].get('location', ''))}


def binding(node):
    ns, soap_node = (extension(node, 'binding') or [('', etree.Element('none'))])[0]
    ops = []
    for o in kids(node, 'operation'):
        ons, op_node = (extension(o, 'operation') or [('', etree.Element('none'))])[0]
        use, headers = {}, {}
        for way in ('input', 'output'):
            use[way], headers[way] = '', []
            for x in kids(o, way):
                use[way] = ''.join(e.get('use', '') for _, e in extension(x, 'body'))
                headers[way] = [{'message': qname(e, e.get('message')), 'part': e.get('part')} for _, e in extension(x, 'header')]
        ops.append({'n': o.get('name'), 'soapns': ons, 'action': optional(op_node, 'soapAction'), 'style': op_node.get('style') or soap_node.get('style') or '',
                    'inuse': use['input'], 'outuse': use['output'], 'inh': headers['input'], 'outh': headers['output']})
    return {'n': node.get('name'), 'type': qname(node, node.get('type')), 'soapns': ns, 'style': soap_node.get('style', ''),
            'transport': soap_node.get('transport', ''), 'ops': ops}


# --- what generated code defines ------------------------------------------------------------------------
def python_name(name):
    return re.sub(r'\W', '_', name[0].upper() + name[1:])


def content(w, value):
    if value is None:
        return {'k': 'none', 'n': ''}
    if isinstance(value, str):
        return {'k': 'element', 'n': value}
    name = getattr(value, '__name__', '?')
    return {'k': 'type', 'n': next((t['n'] for t in w['types'] if python_name(t['n']) in (name, name.rstrip('_'))), '?')}


def header_parts(cls):
    """The parts of a header class: Python name -> element."""
    return {py: item for c in reversed(cls.__mro__[:-1]) if issubclass(c, xsd.ComplexType) and c not in wsa.Header.__mro__
            for py, item in vars(c).items() if isinstance(item, xsd.Element)}


def header(cls):
    return [] if cls is None else [{'ns': e.namespace or '', 'n': e.tagname or py} for py, e in header_parts(cls).items()]


def method_spec(w, m):
    return {'n': m.operationName, 'action': m.soapAction or '', 'style': m.style, 'in': content(w, m.input), 'out': content(w, m.output),
            'inh': header(m.input_header), 'outh': header(m.output_header)}


def service_spec(w, s):
    bases = [h for m in s.methods for h in (m.input_header, m.output_header) if h is not None]
    return {'n': s.name, 'tns': s.targetNamespace, 'version': s.version.NAME, 'ops': [method_spec(w, m) for m in s.methods],
            'functions': [callable(m.function) for m in s.methods],
            'bases': sorted({'wsa' if issubclass(h, wsa.Header) else '' for h in bases})}


def stub_classes(module):
    return [v for v in vars(module).values() if isinstance(v, type) and issubclass(v, soap.Stub) and v is not soap.Stub]


def stub_spec(cls):
    """What the methods of a stub class pass on."""
    calls, ok = [], True
    taken = []

    class Spy(cls):
        def call(self, *args, **kw):
            taken.append((args, kw))
            return 'result'
    Spy.__name__ = cls.__name__
    spy = Spy()
    parameter, head = object(), object()
    for name, func in list(vars(cls).items()):
        if not callable(func) or isinstance(func, type):
            continue
        taken.clear()
        code = func.__code__
        given = code.co_argcount - 1
        args = (parameter, head)[2 - given:] if given in (1, 2) else None
        if args is None:
            ok = False
            continue
        result = getattr(spy, name)(*args)
        ok = ok and result == 'result' and len(taken) == 1
        if len(taken) == 1:
            got, kw = taken[0]
            bound = dict(zip(('operationName', 'parameter', 'header'), got), **kw)
            calls.append(bound.get('operationName') if isinstance(bound.get('operationName'), str) else '?')
            ok = ok and bound.get('header') is head and bound.get('parameter') is (parameter if given == 2 else None)
    real = cls()
    return {'service': cls.SERVICE.name, 'location': cps(real.location), 'scheme': cps(cls.SCHEME), 'host': cps(cls.HOST), 'calls': calls, 'ok': ok}


NO_CODE = {'op': 'code', 'ok': False, 'target': '', 'wsa': False, 'services': [], 'stubs': [], 'hidden': []}


def code_event(w, target, use_wsa, gen):
    module = gen.module
    found = []
    for v in vars(module).values():
        if isinstance(v, soap.Service) and not any(v is x for x in found):
            found.append(v)
    source = gen.code if isinstance(gen.code, str) else gen.code.decode()
    classes = {n.name for n in ast.parse(source).body if isinstance(n, ast.ClassDef)}
    hidden = sorted(n for n in classes if not isinstance(vars(module).get(n), type))
    return dict(NO_CODE, ok=True, target=target, wsa=use_wsa, services=[service_spec(w, s) for s in found],
                stubs=[stub_spec(c) for c in stub_classes(module)], hidden=hidden)


# --- random documents ------------------------------------------------------------------------------------
def usable(m):
    """Documents of the schema can be made, and the library implements what the schema uses."""
    return all(m.is_simple(e['type']) or m.types[e['type']]['ind'] != 'choice' for e in m.elements.values())


def class_names(m):
    return {python_name(n).strip('_').lower() for n in [*m.types, *m.elements]}


class WsdlGenerator:
    """A random WSDL document with inline schemas: .text, .models (class models of the schemas)."""

    def __init__(self, r):
        self.r = r
        self.count = 0
        self.taken = set()

    def name(self, prefix):
        self.count += 1
        return f'{prefix}{self.count}'

    def odd(self, prefix, share=0.3):
        """A name, maybe one which is no good Python name; unique in every form."""
        r = self.r
        name = r.choice(NAMES)
        key = re.sub(r'\W', '_', name).lower().strip('_')
        if r.random() < share and key not in self.taken:
            self.taken.add(key)
            return name
        return self.name(prefix)

    def build(self):
        r = self.r
        self.version = r.choice(['soap11', 'soap12'])
        self.tns = r.choice(['urn:w', 'http://example.org/w?a=b', "urn:it's-me"])
        self.schemas()
        self.plan()
        self.write()
        return self

    def schemas(self):
        r = self.r
        self.models, self.docs = [], []
        count = r.choice([1, 1, 2])
        prefixes = r.choice([('xs', 'tns'), ('xsd', 't'), ('', 'tns'), ('xs', ''), ('a-b', 'x.y')])
        while len(self.models) < count:
            g = XsdGenerator(r, prefixes=prefixes)
            g.n = 1000 * len(self.models)
            m = g.build_xsd()
            m.gen = g
            if self.models and (m.tns == self.models[0].tns or class_names(m) & class_names(self.models[0])):
                continue
            if not any(m.types[e['type']]['kind'] == 'complex' for e in m.elements.values()) or not usable(m):
                continue
            try:
                etree.XMLSchema(etree.fromstring(m.documents[0][1]))
            except etree.XMLSchemaParseError:
                continue
            self.models.append(m)

    # --- structure ---
    def plan(self):
        r = self.r
        self.elements = [(m, e) for m in self.models for e in m.elements.values()]
        r.shuffle(self.elements)
        self.bodies = [x for x in self.elements if x[0].types[x[1]['type']]['kind'] == 'complex']
        self.messages, self.portTypes, self.bindings, self.services = [], [], [], []
        for _ in range(r.choice([1, 1, 2])):
            ops = [self.operation() for _ in range(r.randint(1, 3))]
            self.portTypes.append({'n': self.odd('PT'), 'ops': ops})
        for pt in self.portTypes:
            for _ in range(r.choice([1, 1, 2])):
                self.bindings.append(self.binding(pt))
        if r.random() < 0.3:
            self.bindings.append({'n': self.name('Get'), 'pt': r.choice(self.portTypes), 'kind': r.choice(['get', 'smtp'])})
        ports = [{'n': self.odd('Port'), 'b': b, 'address': self.address()} for b in self.bindings]
        cut = r.choice([len(ports), r.randint(1, len(ports))])
        for part in (ports[:cut], ports[cut:]):
            if part:
                r.shuffle(part)
                self.services.append({'n': self.odd('Svc'), 'ports': part})

    def address(self):
        r = self.r
        return r.choice(['http://h.example/ws', 'https://h:8443/a/b?c=d&e=f', 'http://h/', 'http://h', 'http://h/a$b/$$c', 'http://user@h/x#frag', "http://h/it's",
                         '${scheme}://${host}/ws', 'http://${host}/ws', '${scheme}://h/x', 'http://[::1]:80/x'])

    def message(self, prefix, parts):
        m = {'n': self.odd(prefix, 0.15), 'parts': parts}
        self.messages.append(m)
        return m

    def part(self, name, pool):
        """A part with a body."""
        r = self.r
        if r.random() < 0.08:
            m = r.choice(self.models)
            return {'n': name, 'type': (m.tns, r.choice(m.complex)), 'element': None}
        m, e = r.choice(pool)
        return {'n': name, 'element': (m.tns, e['n']), 'type': None}

    def operation(self):
        r = self.r
        op = {'n': self.odd('Op', 0.4), 'in': None, 'out': None}
        free = r.choice(self.elements)[1]['n']
        key = re.sub(r'\W', '_', free).lower().strip('_')
        if r.random() < 0.2 and key not in self.taken:  # often the operation is named like the element
            self.taken.add(key)
            op['n'] = free
        pool = self.bodies if r.random() < 0.8 else self.elements
        parts = [] if r.random() < 0.08 else [self.part(self.odd('p', 0.1), pool)]
        op['in'] = self.message('In', parts)
        if r.random() < 0.9:
            old = [m for m in self.messages if len(m['parts']) == 1]
            if old and r.random() < 0.1:
                op['out'] = r.choice(old)
            else:
                op['out'] = self.message('Out', [] if r.random() < 0.08 else [self.part(r.choice(['body', 'parameters', 'result']), pool)])
        return op

    def headers(self):
        r = self.r
        if r.random() < 0.7:
            return []
        chosen = r.sample(self.elements, min(len(self.elements), r.randint(1, 2)))
        names = set()
        parts = []
        for x, e in chosen:
            name = e['n'] if r.random() < 0.4 else self.odd('part', 0.3)
            if name in names:
                name = self.name('part')
            names.add(name)
            if r.random() < 0.12:
                x = r.choice(self.models)
                parts.append({'n': name, 'type': (x.tns, r.choice(x.complex)), 'element': None})
                continue
            parts.append({'n': name, 'element': (x.tns, e['n']), 'type': None})
        m = self.message('Hdr', parts)
        return [(m, p) for p in m['parts']]

    def binding(self, pt):
        r = self.r
        ops = []
        actions = set()
        for op in pt['ops']:
            action = r.choice([None, '', 'urn:' + self.name('a'), "urn:it's " + self.name('a'), 'http://x.org/' + self.name('a') + '?a=1&b=2', '#' + self.name('a')])
            ops.append({'op': op, 'action': action, 'style': r.choice([None, None, 'document', 'rpc']), 'bare': action is None and r.random() < 0.5,
                        'inh': self.headers(), 'outh': self.headers() if op['out'] else []})
        r.shuffle(ops)
        return {'n': self.odd('B', 0.2), 'pt': pt, 'kind': 'soap', 'ops': ops, 'style': r.choice([None, 'document', 'document', 'rpc'])}

    # --- writing ---
    def write(self):
        r = self.r
        self.wp = r.choice(['wsdl', 'wsdl', None, 'w'])
        self.sp = r.choice(['soap', 'soap12', 's'])
        self.tp = r.choice(['tns', 't', 'my.ns', *([None] if self.wp else [])])
        nsmap = {self.wp: WSDL, self.sp: SOAP[self.version], self.tp: self.tns}
        self.prefix = {self.tns: self.tp}
        for k, m in enumerate(self.models):
            self.prefix[m.tns] = f'e{k}'
            nsmap[f'e{k}'] = m.tns
        nsmap['http'] = 'http://schemas.xmlsoap.org/wsdl/http/'
        root = etree.Element(f'{{{WSDL}}}definitions', {'targetNamespace': self.tns}, nsmap=nsmap)
        if r.random() < 0.5:
            root.set('name', self.odd('Definitions'))
        sections = [self.types()] + [self.write_message(m) for m in self.messages] + [self.write_portType(p) for p in self.portTypes]
        sections += [self.write_binding(b) for b in self.bindings] + [self.write_service(s) for s in self.services]
        if r.random() < 0.3:
            r.shuffle(sections)
        for s in sections:
            root.append(s)
        if r.random() < 0.3:
            root.insert(0, self.w("documentation", None, "some 'text' {{ x }} <b>"))
        text = etree.tostring(root, pretty_print=r.random() < 0.7, encoding='unicode')
        for k, m in enumerate(self.models):
            schema = etree.tostring(etree.fromstring(m.documents[0][1]), encoding='unicode')
            text = text.replace(f'<!--schema{k}-->', schema)
        self.text = text.encode()

    def w(self, name, parent=None, text=None, /, **attrs):
        attrs = {k.rstrip('_'): v for k, v in attrs.items() if v is not None}
        tag = f'{{{WSDL}}}{name}'
        node = etree.Element(tag, attrs) if parent is None else etree.SubElement(parent, tag, attrs)
        node.text = text
        if text is None and name not in ('documentation', 'types') and self.r.random() < 0.05:
            etree.SubElement(node, f'{{{WSDL}}}documentation').text = 'about it'
        return node

    def s(self, name, parent, /, **attrs):
        return etree.SubElement(parent, f'{{{SOAP[self.version]}}}{name}', {k: v for k, v in attrs.items() if v is not None})

    def q(self, ns, name):
        prefix = self.prefix[ns]
        return f'{prefix}:{name}' if prefix else name

    def types(self):
        node = self.w('types')
        for k in self.r.sample(range(len(self.models)), len(self.models)):
            node.append(etree.Comment(f'schema{k}'))
        return node

    def write_message(self, m):
        node = self.w('message', name=m['n'])
        for p in m['parts']:
            self.w('part', node, name=p['n'], element=p['element'] and self.q(*p['element']), type=p['type'] and self.q(*p['type']))
        return node

    def write_portType(self, pt):
        node = self.w('portType', name=pt['n'])
        for op in pt['ops']:
            o = self.w('operation', node, name=op['n'])
            self.w('input', o, message=self.q(self.tns, op['in']['n']), name=self.r.choice([None, 'in']))
            if op['out']:
                self.w('output', o, message=self.q(self.tns, op['out']['n']))
        return node

    def write_binding(self, b):
        node = self.w('binding', name=b['n'], type=self.q(self.tns, b['pt']['n']))
        if b['kind'] == 'get':
            etree.SubElement(node, '{http://schemas.xmlsoap.org/wsdl/http/}binding', verb='GET')
            for op in b['pt']['ops']:
                etree.SubElement(self.w('operation', node, name=op['n']), '{http://schemas.xmlsoap.org/wsdl/http/}operation', location='/x')
            return node
        if b['kind'] == 'smtp':
            self.s('binding', node, transport='http://schemas.xmlsoap.org/soap/smtp')
            return node
        self.s('binding', node, style=b['style'], transport=HTTP)
        for x in b['ops']:
            o = self.w('operation', node, name=x['op']['n'])
            if not x['bare']:
                self.s('operation', o, soapAction=x['action'], style=x['style'])
            for way, headers in (('input', x['inh']), ('output', x['outh'])):
                if way == 'output' and not x['op']['out']:
                    continue
                i = self.w(way, o)
                self.s('body', i, use='literal')
                for m, p in headers:
                    self.s('header', i, message=self.q(self.tns, m['n']), part=p['n'], use='literal')
        return node

    def write_service(self, s):
        node = self.w('service', name=s['n'])
        for p in s['ports']:
            x = self.w('port', node, name=p['n'], binding=self.q(self.tns, p['b']['n']))
            if p['b']['kind'] == 'get':
                etree.SubElement(x, '{http://schemas.xmlsoap.org/wsdl/http/}address', location=p['address'])
            else:
                self.s('address', x, location=p['address'])
        return node

    def callable(self, b):
        """The operations of a binding which a call can not be mistaken for another one of: (name, in, out)."""
        result = []
        known = {(m.tns, e['n']): (m, e) for m, e in self.bodies}
        roots = [x['op']['in']['parts'][0]['element'] if x['op']['in']['parts'] else None for x in b['ops']]
        for x, root in zip(b['ops'], roots):
            out = x['op']['out']
            if out and out['parts']:
                out = known.get(out['parts'][0]['element'])
                if out is None:
                    continue
            else:
                out = None
            if root in known and (x['action'] or roots.count(root) == 1):
                result.append((x['op']['n'], known[root], out))
        return result
