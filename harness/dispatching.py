"""Services, requests and the recording of what happens to them, for spec/Dispatch.tla and DispatchTrace.tla."""
import logging
import random
import threading

from lxml import etree

import model
from model import NONE, XSI, Options, Presenter, snap, tree_of
from schemas import EXACT, FORMS, SchemaGenerator, mutate, all_names
from simple import cps
from soapfish import core, middlewares, soap, soap_dispatch, wsa, xsd
from vlib import MachineryError

VERSIONS = {'soap11': soap.SOAPVersion.SOAP11, 'soap12': soap.SOAPVersion.SOAP12}
ENV = {'soap11': 'http://schemas.xmlsoap.org/soap/envelope/', 'soap12': 'http://www.w3.org/2003/05/soap-envelope'}
WSA = 'http://www.w3.org/2005/08/addressing'
KNOWN_HEADER = 'KNOWN header parts are rendered in the namespace of the envelope'
EMPTY = {'ns': '', 'n': '', 'a': [], 'k': [], 'x': []}
NO_OUT = {'status': 0, 'ctype': '', 'xh': '', 'wf': False, 'tree': EMPTY, 'codens': ''}
ACTIONS = ['urn:a', 'urn:b', 'http://x.org/op?a=1', 'a;b', 'x y', 'URN:A', 'urn:a/', 'Größe']
ODD_ELEMENTS = ['message', 'Fault', 'Body', 'Header', 'Envelope', 'my-el', 'e.x', 'class', 'Größe', 'name', 'body']


def qn(tag, ns=''):
    return {'ns': ns, 'n': tag, 'a': [], 'k': [], 'x': []}


class Op:
    pass


class ServiceGenerator(SchemaGenerator):
    """Services with class models, schemas (with imports and includes), operations and headers."""

    def plain_model(self):
        r = self.r
        while True:
            m = super(SchemaGenerator, self).build()
            if not any(m.types[c]['ind'] == 'choice' and all(f['k'] == 'attr' for f in m.fields(c)) for c in m.complex):
                return m
            m.close()

    def element(self, m, kind, names=ODD_ELEMENTS, odd=0.25, t=None):
        r = self.r
        name = self.name(kind)
        if r.random() < odd:
            odd_name = r.choice(names)
            if odd_name not in self.taken:
                name = odd_name
        self.taken.add(name)
        nil = kind == 'other' and r.random() < 0.3
        if t is None:
            if kind in ('other', 'part') and r.random() < 0.4:
                t, passed = self.simple_type(m)
            else:
                t = r.choice(m.complex)
                passed = self.passed_complex(m, t)
        elif m.is_simple(t):
            passed = m.passed[t]
        else:
            passed = m.classes[t]
        if kind == 'in' and r.random() < 0.5:
            passed = m.classes[t]
        if m.is_simple(t):
            m.passed[t] = passed
        m.declared[name] = (passed, nil, '')
        m.elements[name] = {'n': name, 'ns': m.tns, 'q': m.q, 'type': t, 'nil': nil, 'subst': ''}
        return m.elements[name]

    def header_class(self, m, parts, namespaces=False):
        """A header class whose parts are the given elements."""
        r = self.r
        name = self.name('H')
        attrs, fields = {}, []
        for el in parts:
            py = self.name('h')
            f = {'py': py, 'tag': el['n'], 'k': 'elem', 'type': el['type'], 'min': 1, 'max': 1, 'nil': False, 'ns': [], 'def': NONE}
            kw = {'tagname': el['n'], 'minOccurs': r.choice([0, 1])}
            f['min'] = kw['minOccurs']
            if namespaces or r.random() < 0.4:
                kw['namespace'] = m.tns
                f['ns'] = [m.tns]
            passed = m.passed[el['type']] if m.is_simple(el['type']) else self.passed_complex(m, el['type'])
            attrs[py] = xsd.Element(passed, **kw)
            fields.append(f)
        m.types[name] = {'kind': 'complex', 'base': '', 'ind': 'sequence', 'sns': [m.tns], 'sq': m.q, 'fields': fields}
        m.classes[name] = type(name, (xsd.ComplexType,), attrs)
        m.header_classes.append(name)
        return name

    def service(self, **focus):
        """focus: version, imports, headers (share), ops, same_input, wsa, strict, header_ns."""
        r = self.r
        s = Service()
        s.gen = self
        s.version = focus.get('version') or r.choice(['soap11', 'soap12'])
        self.taken = set()
        models = []
        imported = r.random() < focus.get('imports', 0.3)
        for k in range(2 if imported else 1):
            m = self.plain_model()
            m.elements, m.declared, m.header_classes, m.passed = {}, {}, [], {}
            models.append(m)
        if imported:
            models[0].tns = 'urn:imported'
        s.models, m = models, models[-1]
        s.m = m
        # operations and their elements
        s.ops = []
        actions = r.sample(ACTIONS, r.randint(1, 3)) + ['']
        inputs = []
        for k in range(focus.get('ops') or r.randint(1, 4)):
            op = Op()
            op.name = self.name('Op')
            if s.ops and r.random() < 0.15 and s.ops[-1].name.swapcase() not in {x.name for x in s.ops}:
                op.name = s.ops[-1].name.swapcase()
            op.action = r.choice(actions)
            source = r.choice(models)
            if inputs and r.random() < focus.get('same_input', 0.15):
                op.input = r.choice(inputs)
            else:
                op.input = self.element(source, 'in')
            inputs.append(op.input)
            op.output = self.element(r.choice(models), 'out', ['my-out', 'Envelope2', 'result', 'message'])
            op.class_output = r.random() < 0.1
            op.inh = op.outh = ''
            s.ops.append(op)
        for op in s.ops:
            if r.random() < 0.5 and isinstance(self.owner(models, op.input['n']).declared[op.input['n']][0], type):
                sub = self.element(self.owner(models, op.input['n']), 'sub', t=op.input['type'])
                sub['subst'] = op.input['n']
                owner = self.owner(models, op.input['n'])
                owner.declared[sub['n']] = (owner.declared[sub['n']][0], False, r.choice(['sns:', '']) + op.input['n'])
        for _ in range(r.randint(0, 2)):
            self.element(r.choice(models), 'other')
        # headers
        s.inh = s.outh = ''
        s.wsa = r.random() < focus.get('wsa', 0.05)
        header_classes = []
        if r.random() < focus.get('headers', 0.25):
            parts = [self.element(m, 'part') for _ in range(r.randint(1, 3))]
            for _ in range(r.randint(1, 2)):
                header_classes.append(self.header_class(m, r.sample(parts, r.randint(1, len(parts))), focus.get('header_ns', False)))
            if r.random() < 0.5:
                s.inh = r.choice(header_classes)
            if r.random() < 0.5:
                s.outh = r.choice(header_classes)
            for op in s.ops:
                if r.random() < 0.5:
                    op.inh = r.choice(header_classes)
                if r.random() < 0.5:
                    op.outh = r.choice(header_classes)
        s.strict = focus['strict'] if focus.get('strict') is not None else r.random() < 0.7
        # schemas
        schemas = []
        for x in models:
            for t in x.types.values():
                if t['kind'] == 'complex':
                    t['sns'], t['sq'] = [x.tns], x.q
            # A type of elements only, which are given an instance of it, need not be listed.
            used = {t for y in models for d in y.types.values() if d['kind'] == 'complex' for t in [d['base'], *(f['type'] for f in d['fields'])]}
            passed = {t: [p for n, (p, _, _) in x.declared.items() if x.elements[n]['type'] == t] for t in x.complex}
            anonymous = [t for t in x.complex if t not in used and passed[t] and all(isinstance(p, xsd.ComplexType) for p in passed[t]) and r.random() < 0.7]
            classes = [x.classes[c] for c in x.complex + x.header_classes if c not in anonymous]
            elements = {n: xsd.Element(p, nillable=nil, **({'substitutionGroup': sg} if sg else {})) for n, (p, nil, sg) in x.declared.items()}
            inner = []
            if r.random() < 0.3:
                part = [c for c in classes if r.random() < 0.5]
                classes = [c for c in classes if c not in part]
                moved = {n: e for n, e in elements.items() if r.random() < 0.3 and not any(d[2] for d in x.declared.values())}
                elements = {n: e for n, e in elements.items() if n not in moved}
                inner = [xsd.Schema(x.tns, elementFormDefault=FORMS[x.q], complexTypes=part, elements=moved, location=self.name('inc') + '.xsd')]
            x.schema = xsd.Schema(x.tns, elementFormDefault=FORMS[x.q], imports=list(schemas), includes=inner, complexTypes=classes,
                                  simpleTypes=list(x.simple_classes), elements=elements, location=self.name('schema') + '.xsd')
            s.locations = getattr(s, 'locations', []) + [y.location for y in inner] + ([x.schema.location] if x is not m else [])
            schemas = [x.schema]
        s.types, s.classes = {}, {}
        for x in models:
            s.types.update(x.types)
            s.classes.update(x.classes)
        s.elements = [el for x in models for el in x.elements.values()]
        if s.wsa:
            self.add_wsa(s)
        s.methods = []
        for op in s.ops:
            out_model = self.owner(models, op.output['n'])
            s.methods.append(xsd.Method(
                op.name, op.action, input=op.input['n'],
                output=out_model.classes[op.output['type']] if op.class_output else op.output['n'],
                input_header=m.classes.get(op.inh), output_header=m.classes.get(op.outh)))
        s.use_wsa = s.wsa
        s.target = 'urn:service'
        roots = [m.schema]
        if len(models) > 1 and r.random() < 0.3:  # the imported schema is one of the service's, too
            roots.insert(r.randint(0, 1), models[0].schema)
        s.service = soap.Service(s.target, '${scheme}://${host}/ws', roots, s.methods, version=VERSIONS[s.version],
                                 input_header=m.classes.get(s.inh), output_header=m.classes.get(s.outh), use_wsa=s.wsa)
        if s.wsa:
            s.inh = s.inh or 'Header'
            s.outh = s.outh or 'Header'
        return s

    def add_wsa(self, s):
        s.types['sWsa'] = {'kind': 'simple', 'type': 'string', 'facets': {}}
        def f(py, t='sWsa', low=1):
            return {'py': py, 'tag': py, 'k': 'elem', 'type': t, 'min': low, 'max': 1, 'nil': False, 'ns': [WSA], 'def': NONE}
        s.types['ReplyTo'] = {'kind': 'complex', 'base': '', 'ind': 'sequence', 'sns': [WSA], 'sq': True, 'fields': [f('Address')]}
        s.types['Header'] = {'kind': 'complex', 'base': '', 'ind': 'sequence', 'sns': [WSA], 'sq': True,
                             'fields': [f('Action'), f('MessageID'), f('To'), f('ReplyTo', 'ReplyTo', 0), f('RelatesTo', low=0)]}
        s.classes['Header'], s.classes['ReplyTo'] = wsa.Header, wsa.ReplyTo

    @staticmethod
    def owner(models, name):
        return next(x for x in models if name in x.elements)

    # --- values and documents of a service ---
    def result(self, s, op):
        """An object the operation may answer."""
        m = self.owner(s.models, op.output['n'])
        return self.renderable(m, op.output['type'])

    def renderable(self, m, t):
        for _ in range(20):
            o = self.obj(m, t, complete=1)
            try:
                o.xml('x')
            except ValueError:
                continue
            return o
        return None

    @staticmethod
    def header_renders(s, name):
        """Not the known finding: every part names its namespace and has unqualified content in no case."""
        return name and (name == 'Header' or all(
            f['ns'] and (s.m.q or s.m.is_simple(f['type'])) for f in s.m.fields(name)))

    def header_object(self, s, name):
        if name == 'Header':
            r = self.r
            h = wsa.Header(Action='urn:a', MessageID=r.choice(['urn:1', 'uuid:2']), To='http://x.org/')
            if r.random() < 0.5:
                h.ReplyTo = wsa.ReplyTo(Address=r.choice([wsa.ANONYMOUS, 'http://x.org/b']))
            if r.random() < 0.5:
                h.RelatesTo = 'urn:0'
            return h
        return self.renderable(s.m, name)

    def body_tree(self, s, el, bad=0.0):
        m = self.owner(s.models, el['n'])
        return self.element_tree(m, el, bad)

    def wsa_tree(self, bad):
        r = self.r
        names = ['MessageID', 'To', 'Action', 'RelatesTo', 'ReplyTo', 'From', 'FaultTo']
        name = r.choice(names)
        node = qn(name, WSA)
        if name in ('ReplyTo', 'From', 'FaultTo'):
            node['k'].append({**qn('Address', WSA), 'x': cps('http://x.org/a')})
            if r.random() < 0.3:
                node['k'].append({**qn('ReferenceParameters', WSA), 'k': [qn('p', 'urn:p')]})
            if r.random() < 0.2:
                node['k'].append(qn('Metadata', WSA))
            if r.random() < 0.2:
                node['k'].append(qn('any', 'urn:p'))
        else:
            node['x'] = cps(r.choice(['urn:x', 'http://x.org/?a=1', '']))
        if r.random() < 0.3:
            node['a'].append({'ns': ENV['soap11'], 'n': 'mustUnderstand', 'v': cps('1')})
        if name == 'RelatesTo' and r.random() < 0.3:
            node['a'].append({'ns': '', 'n': 'RelationshipType', 'v': cps('urn:r')})
        if r.random() < bad:
            kind = r.randrange(6)
            if kind == 0:
                node['n'] = r.choice(['Foo', 'action', 'Address'])
            elif kind == 1:
                node['a'].append({'ns': '', 'n': 'x', 'v': cps('1')})
            elif kind == 2:
                node['k'] = node['k'][1:]
            elif kind == 3:
                node['k'].append(qn('Address', WSA))
                node['x'] = []
            elif kind == 4:
                node['k'].append(qn('local'))
                node['x'] = []
            elif node['k']:
                node['k'].reverse()
        return node

    def header_tree(self, s, op, bad=0.0, foreign=0.1, wsa_share=0.2):
        """A Header element, or None."""
        r = self.r
        node = qn('Header', ENV[s.version])
        name = op.inh or s.inh
        blocks = []
        if name and name != 'Header' and r.random() < 0.8:
            for f in s.m.fields(name):
                if r.random() < 0.85:
                    blocks.append(self.body_tree(s, s.m.elements[f['tag']], bad=bad))
        elif name == 'Header':
            h = self.header_object(s, name)
            for f in s.types['Header']['fields']:
                v = getattr(h, f['py'])
                if v is not None:
                    b = qn(f['tag'], WSA)
                    if f['py'] == 'ReplyTo':
                        b['k'].append({**qn('Address', WSA), 'x': cps(v.Address)})
                    else:
                        b['x'] = cps(v)
                    blocks.append(b)
        if r.random() < wsa_share and name != 'Header':
            blocks.append(self.wsa_tree(0.4))
        if r.random() < foreign:
            blocks.append(r.choice([qn('unknown', 'urn:unknown'), qn('unknown', s.m.tns), qn('local'), {**qn('t', 'urn:u'), 'x': cps('x')}]))
        if blocks and r.random() < bad * 3:
            k = r.randrange(len(blocks))
            names = all_names(s.m)
            blocks[k] = mutate(r, blocks[k], names, 1)
        if name != 'Header' or r.random() < 0.1:
            r.shuffle(blocks)
        node['k'] = blocks
        return node


class Service:
    def spec(self, mws=(), hooks=()):
        return {
            'model': {'types': self.types, 'tns': self.m.tns, 'q': self.m.q},
            'version': self.version, 'strict': self.strict, 'elements': self.elements,
            'ops': [{'action': cps(op.action), 'input': op.input['n'], 'intype': op.input['type'],
                     'output': '' if op.class_output else op.output['n'], 'inh': op.inh} for op in self.ops],
            'inh': self.inh, 'mws': list(mws), 'hooks': list(hooks), 'locations': [cps(x) for x in self.locations],
        }

    # what model.snap needs
    def fields(self, name):
        t = self.types[name]
        own = {f['py'] for f in t['fields']}
        base = [f for f in self.fields(t['base']) if f['py'] not in own] if t['base'] else []
        return base + t['fields']

    def close(self):
        for m in self.models:
            m.close()

    def envelope(self, header, *body):
        ns = ENV[self.version]
        return {**qn('Envelope', ns), 'k': ([header] if header else []) + [{**qn('Body', ns), 'k': list(body)}]}


# --- requests ----------------------------------------------------------------------------------------
class Content:
    """What a request object contains, for the library and for the specification."""

    def __init__(self, environ, doc, wf='yes', tree=None, query=()):
        self.environ, self.doc = environ, doc
        self.wf = wf
        if tree is None:
            tree, self.wf = self.parsed(doc, wf)
        self.tree, self.query = tree, list(query)

    @staticmethod
    def parsed(doc, wf):
        if wf == 'no':
            return EMPTY, wf
        try:
            return tree_of(etree.fromstring(doc)), wf
        except (etree.XMLSyntaxError, ValueError):
            if wf == 'yes':
                raise MachineryError(f'not well-formed: {doc!r}') from None
            return EMPTY, 'no'

    def spec(self):
        env = self.environ
        return {
            'method': env.get('REQUEST_METHOD', ''), 'query': [{'k': k, 'v': cps(v)} for k, v in self.query],
            'wf': self.wf, 'tree': self.tree,
            'acts': [cps(env.get(n, '')) for n in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION')],
            'ctype': cps(env.get('CONTENT_TYPE', '')),
        }

    def request(self):
        return core.SOAPRequest(dict(self.environ), self.doc)


def action_headers(r, s, action, style=None):
    """Environment entries which carry the action (None: none)."""
    env = {}
    if s.version == 'soap11':
        if action is not None:
            name = r.choice(['SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION'])
            env[name] = f'"{action}"' if r.random() < 0.6 else action
            if r.random() < 0.15:
                env.setdefault(r.choice(['ACTION', 'HTTP_ACTION']), 'urn:ignored' if name not in ('ACTION', 'HTTP_ACTION') else env[name])
        elif r.random() < 0.3:
            env[r.choice(['SOAPACTION', 'HTTP_SOAPACTION'])] = r.choice(['""', ''])
        if r.random() < 0.3:
            env['CONTENT_TYPE'] = r.choice(['text/xml', 'text/xml; charset=utf-8', 'application/soap+xml; action="urn:ignored"'])
    else:
        params = []
        if action is not None:
            value = action.replace('\\', '\\\\').replace('"', '\\"')
            quoted = not action or any(c in action for c in ' ;"\\,=') or r.random() < 0.7
            params.append(r.choice(['action', 'action', 'Action']) + '=' + (f'"{value}"' if quoted else action))
        if r.random() < 0.4:
            params.insert(r.randint(0, len(params)), r.choice(['charset=utf-8', 'charset="utf-8"', 'x="a;b=c"']))
        base = 'application/soap+xml'
        if action is None and r.random() < 0.4:
            base = r.choice(['text/xml', '', 'application/xml'])
            if base and r.random() < 0.5:
                params.append('action="urn:ignored"')
        env['CONTENT_TYPE'] = '; '.join([base] + params) if base else ''
        if r.random() < 0.2:
            env[r.choice(['SOAPACTION', 'HTTP_SOAPACTION'])] = '"urn:ignored"'
    return env


# --- recording -----------------------------------------------------------------------------------------
class Recorder:
    """Records what callbacks see; one per case.  Objects are identified by their number."""

    def __init__(self, s):
        self.s = s
        self.events = []
        self.objects = []       # keeps objects alive, so that identities are unique
        self.requests = []      # the request objects; request id = number in this list
        self.contents = []
        self.lock = threading.RLock()
        self.local = threading.local()
        self.pause = lambda r, what: None
        self.dispatcher = None

    def ident(self, o):
        with self.lock:
            for k, x in enumerate(self.objects):
                if x is o:
                    return k + 1
            self.objects.append(o)
            return len(self.objects)

    def request_id(self, req):
        for k, x in enumerate(self.requests):
            if x is req:
                return k + 1
        return 0

    def add_request(self, content):
        request = content.request()
        with self.lock:
            self.requests.append(request)
            self.contents.append(content)
        return request

    def emit(self, op, **kw):
        r = self.local.r
        with self.lock:
            self.events.append({'op': op, 'r': r, **kw})
        self.pause(r, op)

    def value(self, kind, o):
        v = {'k': kind, 'id': self.ident(o), 'bid': 0, 'err': False, 'code': [], 'msg': [], 'hasmsg': False, 'cls': [], 'mro': [],
             'body': NONE, 'uncap': '', 'hdr': NONE, 'status': 200, 'xh': ''}
        body = o
        if kind == 'raise':
            v['cls'], v['mro'] = cps(type(o).__name__), [c.__name__ for c in type(o).__mro__]
            v['msg'], v['hasmsg'] = cps(str(o)), True
        if kind == 'obj' and isinstance(o, core.SOAPResponse):
            v['k'] = 'resp'
            body = o.soap_body
            v['hdr'] = NONE if o.soap_header is None else snap(self.s, o.soap_header)
            v['status'] = o.http_status_code
            v['xh'] = extra(o)
        v['bid'] = self.ident(body)
        if isinstance(body, core.SOAPError):
            v['err'] = True
            v['code'] = cps(str.__str__(body.code)) if isinstance(body.code, str) else cps(repr(body.code))
            v['msg'], v['hasmsg'] = cps('' if body.message is None else str(body.message)), body.message is not None
        elif kind != 'raise':
            v['body'] = NONE if body is None else snap(self.s, body)
            name = type(body).__name__
            v['uncap'] = name if name == 'QName' else name[:1].lower() + name[1:]
        return v

    def out(self, response):
        o = dict(NO_OUT, status=response.http_status_code, ctype=response.http_headers.get('Content-Type', ''), xh=extra(response))
        if isinstance(response.http_content, bytes):
            try:
                root = etree.fromstring(response.http_content)
            except etree.XMLSyntaxError:
                return o
            o['wf'], o['tree'] = True, tree_of(root)
            for value in root.iter('{%s}Value' % ENV['soap12']):
                o['codens'] = value.nsmap.get((value.text or '').partition(':')[0]) or ''
                break
        return o


def extra(response):
    return '\n'.join(f'{k}={v}' for k, v in sorted(response.http_headers.items()) if k != 'Content-Type')


class Scripted:
    """A middleware which records; what it does is told by a script."""

    def __init__(self, rec, i, script=None, inner=None, handler=None):
        self.rec, self.i, self.script, self.inner, self.log = rec, i, script, inner, handler

    def __call__(self, request, next_call):
        rec, i = self.rec, self.i
        rec.emit('enter', i=i, req=rec.request_id(request), disp=request.dispatcher is rec.dispatcher)
        if self.log:
            self.log.count = 0

        def call_on(req):
            rec.emit('call', i=i, req=rec.request_id(req))
            try:
                result = next_call(req)
            except Exception as e:  # noqa: B902
                rec.emit('back', i=i, v=rec.value('raise', e))
                raise
            rec.emit('back', i=i, v=rec.value('obj', result))
            return result

        logs = 0
        try:
            if self.inner is not None:
                result = self.inner(request, call_on)
            else:
                result = self.script(request, call_on)
        except Exception as e:  # noqa: B902
            logs = self.log.count if self.log else 0
            rec.emit('leave', i=i, v=rec.value('raise', e), logs=logs)
            raise
        logs = self.log.count if self.log else 0
        rec.emit('leave', i=i, v=rec.value('obj', result), logs=logs)
        return result


class Shared:
    """One callable which stands for all middlewares of a chain: which of them it is depends on how deep the call is."""

    def __init__(self, chain):
        self.chain = chain
        self.local = threading.local()

    def __call__(self, request, next_call):
        depth = getattr(self.local, 'depth', 0)

        def call_on(req):
            self.local.depth = depth + 1
            try:
                return next_call(req)
            finally:
                self.local.depth = depth
        return self.chain[min(depth, len(self.chain) - 1)](request, call_on)


class Counter(logging.Handler):
    """Counts the error records of a logger, per thread."""

    def __init__(self):
        super().__init__()
        self.data = threading.local()

    @property
    def count(self):
        return getattr(self.data, 'count', 0)

    @count.setter
    def count(self, n):
        self.data.count = n

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.count += 1


EXCEPTIONS = {'ValueError': ValueError, 'KeyError': KeyError, 'RuntimeError': RuntimeError, 'LookupError': LookupError,
              'Exception': Exception, 'SOAPError': core.SOAPError, 'AttributeError': AttributeError, 'TypeError': TypeError,
              'AssertionError': AssertionError, 'StopIteration': StopIteration}


class Harness:
    """A dispatcher of a service whose callbacks record what they see."""

    def __init__(self, s, mws=(), hooks=(), rec=None, shared=False):
        """mws: specifications [kind, excs, tb] with a script; hooks: name -> what it does; shared: all are one object."""
        self.s = s
        self.rec = rec = rec or Recorder(s)
        self.handler = None     # handler(op number, request, body): what handlers do, set for each request
        chain = []
        self.specs = []
        for i, (kind, excs, tb, script) in enumerate(mws, 1):
            inner = log = None
            if kind == 'e2f':
                inner = middlewares.ExceptionToSoapFault(traceback=tb)
            elif kind == 'log':
                logger = logging.Logger(f'case{i}')
                log = Counter()
                logger.addHandler(log)
                inner = middlewares.ExceptionLogger(logger=logger, exceptions=tuple(EXCEPTIONS[e] for e in excs), traceback=tb)
            chain.append(Scripted(rec, i, script, inner, log))
            self.specs.append({'kind': kind, 'excs': list(excs), 'tb': tb})
        if shared:
            chain = [Shared(chain)] * len(chain)
        self.hook_names = sorted(hooks)
        for k, method in enumerate(s.methods, 1):
            function = self.handler_function(k)
            if k % 2:
                method.function = function
            elif s.service.route(method.operationName)(function) is not function:
                rec.emit('check', ok=False, what='route does not return the function it decorates')
        self.dispatcher = soap_dispatch.SOAPDispatcher(
            s.service, middlewares=chain, hooks={n: self.hook(n, f) for n, f in hooks.items()} if hooks else None,
            strict_soap_header=s.strict)
        rec.dispatcher = self.dispatcher

    def handler_function(self, o):
        rec = self.rec

        def function(request, body):
            rec.emit('handler', o=o, req=rec.request_id(request), body=snap(self.s, body),
                     hdr=NONE if request.soap_header is None else snap(self.s, request.soap_header))
            try:
                result = self.handler(o, request, body)
            except Exception as e:  # noqa: B902
                rec.emit('hdone', v=rec.value('raise', e))
                raise
            rec.emit('hdone', v=rec.value('obj', result))
            return result
        return function

    def hook(self, name, what):
        rec = self.rec
        kind, point = name.split('-')

        def request_hook(dispatcher, request):
            arg = rec.request_id(request)
            got = what(request)
            ret = {'k': 'req', 'id': rec.request_id(got)} if isinstance(got, core.SOAPRequest) else {'k': 'wrong', 'id': 0}
            rec.emit('hook', kind=kind, point=point, arg={'k': 'req', 'id': arg}, ret=ret, disp=dispatcher is rec.dispatcher)
            return got

        def response_hook(dispatcher, request, response):
            arg, v = rec.out(response), rec.value('obj', response)
            got = what(response)
            is_response = isinstance(got, core.SOAPResponse)
            ret = {'k': 'resp' if is_response else 'wrong', 'id': rec.ident(got)}
            rec.emit('hook', kind=kind, point=point, arg=arg, v=v, ret=ret, disp=dispatcher is rec.dispatcher,
                     req=rec.request_id(request), out=rec.out(got) if is_response else NO_OUT)
            return got
        return request_hook if point == 'request' else response_hook

    def dispatch(self, content, r=1):
        rec = self.rec
        rec.local.r = r
        request = rec.add_request(content)
        rec.emit('start', req=rec.request_id(request))
        try:
            response = self.dispatcher.dispatch(request)
        except Exception as e:  # noqa: B902
            rec.emit('end', k='raise', cls=type(e).__name__, v=rec.value('raise', e), out=NO_OUT)
            return e
        if not isinstance(response, core.SOAPResponse):
            rec.emit('check', ok=False, what='dispatch did not return a response')
            return response
        rec.emit('end', k='resp', cls='', v=rec.value('obj', response), out=rec.out(response))
        return response

    def case(self, n):
        return {'service': self.s.spec(self.specs, self.hook_names), 'requests': [c.spec() for c in self.rec.contents],
                'events': self.rec.events, 'n': n}
