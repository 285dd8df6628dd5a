"""Worlds of documents which refer to one another: written to scratch directories and a loopback server (P20, P21)."""
import builtins
import contextlib
import ctypes
import http.server
import importlib.util
import io
import os
import shutil
import struct
import sys
import tempfile
import threading
from xml.sax.saxutils import quoteattr

from lxml import etree

import fastjinja  # noqa: F401
from soapfish import py2xsd, soap, wsdl2py, xsd, xsd2py

XSD = 'http://www.w3.org/2001/XMLSchema'
BUILTINS = ['int', 'string', 'boolean', 'date', 'long']
LIBC = ctypes.CDLL(None, use_errno=True)
IN_OPEN, IN_ISDIR = 0x20, 0x40000000


# --- Watching ------------------------------------------------------------------------------------
class Watch:
    """Sees every file which is opened in the directories, by whatever code of this process."""

    def __init__(self, root):
        self.root = root
        self.fd = LIBC.inotify_init1(os.O_NONBLOCK)
        self.dirs = {}
        for path, _, _ in os.walk(root):
            wd = LIBC.inotify_add_watch(self.fd, path.encode(), IN_OPEN)
            if self.fd < 0 or wd < 0:
                raise OSError(ctypes.get_errno(), 'inotify')
            self.dirs[wd] = path

    def drain(self):
        found = []
        while True:
            try:
                data = os.read(self.fd, 65536)
            except BlockingIOError:
                return found
            k = 0
            while k < len(data):
                wd, mask, _, size = struct.unpack_from('iIII', data, k)
                name = data[k + 16:k + 16 + size].rstrip(b'\0').decode()
                k += 16 + size
                if not mask & IN_ISDIR:
                    found.append(os.path.join(self.dirs[wd], name))

    def close(self):
        os.close(self.fd)


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        content = self.server.world.requested(self.server.label, self.path)
        self.send_response(200 if content is not None else 404)
        self.send_header('Content-Length', str(len(content or b'')))
        self.end_headers()
        self.wfile.write(content or b'')

    do_POST = do_HEAD = do_PUT = do_GET

    def log_message(self, *args):
        pass


SERVERS = {}


def servers():
    """The servers of this process: label -> server."""
    if os.getpid() not in SERVERS:
        os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'
        mine = {}
        for label, host in (('h1', '127.0.0.1'), ('h2', '127.0.0.2')):
            server = http.server.ThreadingHTTPServer((host, 0), Handler)
            server.daemon_threads = True
            server.label, server.world = label, None
            server.authority = '%s:%d' % server.server_address[:2]
            threading.Thread(target=server.serve_forever, kwargs={'poll_interval': 0.05}, daemon=True).start()
            mine[label] = server
        SERVERS[os.getpid()] = mine
    return SERVERS[os.getpid()]


# --- Worlds --------------------------------------------------------------------------------------
def location(h, p, q=''):
    return {'h': h, 'p': list(p), 'q': q}


def ref(p, h='', q='', abs=False, root=False):
    return {'abs': abs, 'root': root, 'h': h, 'p': list(p), 'q': q}


def relative(r, base, to, spell=True):
    """A reference to a location as it can be written at another one."""
    if base['h'] != to['h'] or (to['h'] and r.random() < 0.15):
        return ref(to['p'], to['h'], to['q'], abs=bool(to['h']), root=not to['h'])
    if r.random() < 0.08:
        return ref(to['p'], q=to['q'], root=True)
    here, there = base['p'][:-1], to['p']
    k = 0
    while k < len(here) and k < len(there) - 1 and here[k] == there[k]:
        k += 1
    path = ['..'] * (len(here) - k) + there[k:]
    if spell and r.random() < 0.25:
        path = ['.'] + path
    if spell and r.random() < 0.2 and len(here) > 0:
        path = ['..', here[-1]] + path
    if spell and r.random() < 0.1:
        j = r.randrange(len(path))
        path = path[:j] + ['.'] + path[j:]
    return ref(path, q=to['q'])


class World:
    """docs: [{kind, loc, refs, schemas, ports}], as in spec/Codegen.tla, and where they are."""

    def __init__(self, docs, root=0, q=True):
        self.docs, self.root, self.q = docs, root, q
        self.events = []
        self.lock = threading.Lock()

    # --- texts
    def text(self, r):
        """A reference as text."""
        path = '/'.join(r['p']) + ('?' + r['q'] if r['q'] else '')
        if r['abs']:
            return f'http://{servers()[r["h"]].authority}/{path}'
        if r['root']:
            return ('/' if r.get('url') else self.top + '/') + path
        return path

    def schema_xml(self, doc, schema):
        spaces = {}
        for d in self.docs:
            for s in d['schemas']:
                if s['ns']:
                    spaces.setdefault(s['ns'], f'n{len(spaces)}')
        owner = {n: s for d in self.docs for s in d['schemas'] for n in self.names(s)}

        def qname(t):
            if t.startswith('xs:'):
                return t
            # Within a document without namespace its own types (and those of the including one) have no prefix.
            target = owner[t]['ns']
            return f'{spaces[target]}:{t}' if target and schema['ns'] else t

        def fields(items):
            return '<xs:sequence>' + ''.join(f'<xs:element name="{f["n"]}" type="{qname(f["t"])}"/>' for f in items) + '</xs:sequence>'
        out = [f'<xs:schema xmlns:xs="{XSD}"' + ''.join(f' xmlns:{p}="{n}"' for n, p in spaces.items())]
        if schema['ns']:
            out.append(f' targetNamespace="{schema["ns"]}"')
        out.append(' elementFormDefault="qualified">' if self.q else '>')
        for x in schema['refs']:
            at = f' schemaLocation={quoteattr(self.text(x["at"][0]))}' if x['at'] else ''
            out.append(f'<xs:import namespace="{x["ns"]}"{at}/>' if x['how'] == 'import' else f'<xs:include{at}/>')
        for kind, t in schema['listing']:
            if kind == 'simple':
                base = qname(t['base'] or 'xs:' + t['builtin'])
                out.append(f'<xs:simpleType name="{t["n"]}"><xs:restriction base="{base}"/></xs:simpleType>')
            elif kind == 'complex':
                inner = fields(t['fields'])
                if t['base']:
                    inner = f'<xs:complexContent><xs:extension base="{qname(t["base"])}">{inner}</xs:extension></xs:complexContent>'
                out.append(f'<xs:complexType name="{t["n"]}">{inner}</xs:complexType>')
            elif t['anon']:
                out.append(f'<xs:element name="{t["n"]}"><xs:complexType>{fields(t["fields"])}</xs:complexType></xs:element>')
            else:
                out.append(f'<xs:element name="{t["n"]}" type="{qname(t["t"])}"/>')
        return ''.join(out) + '</xs:schema>'

    @staticmethod
    def names(schema):
        return [t['n'] for part in ('simple', 'complex') for t in schema[part]]

    def doc_xml(self, doc):
        head = '<?xml version="1.0"?>' + doc.get('doctype', '')
        if doc['kind'] == 'xsd':
            return (head + self.schema_xml(doc, doc['schemas'][0])).encode()
        out = [head + '<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" '
               'xmlns:m="urn:wsdl" targetNamespace="urn:wsdl"']
        wsdl = {**NOTHING, **doc.get('wsdl', {})}
        for k, ns in enumerate(sorted({m['ns'] for m in wsdl['messages']})):
            out.append(f' xmlns:e{k}="{ns}"')
        out.append('>')
        prefix = {ns: f'e{k}' for k, ns in enumerate(sorted({m['ns'] for m in wsdl['messages']}))}
        for x in doc['refs']:
            out.append(f'<w:import namespace="urn:wsdl" location={quoteattr(self.text(x))}/>')
        if doc['schemas']:
            out.append('<w:types>' + ''.join(self.schema_xml(doc, s) for s in doc['schemas']) + '</w:types>')
        for m in wsdl['messages']:
            out.append(f'<w:message name="{m["n"]}"><w:part name="body" element="{prefix[m["ns"]]}:{m["e"]}"/></w:message>')
        for t in wsdl['portTypes']:
            out.append(f'<w:portType name="{t["n"]}">' + ''.join(
                f'<w:operation name="{o["n"]}"><w:input message="m:{o["m"]}"/></w:operation>' for o in t['ops']) + '</w:portType>')
        for x in wsdl['bindings']:
            out.append(f'<w:binding name="{x["n"]}" type="m:{x["type"]}"><soap:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/>'
                       + ''.join(f'<w:operation name="{o["n"]}"><soap:operation soapAction="{o["action"]}"/><w:input><soap:body use="literal"/></w:input></w:operation>'
                                 for o in x['ops']) + '</w:binding>')
        for x in wsdl['services']:
            out.append(f'<w:service name="{x["n"]}">' + ''.join(
                f'<w:port name="{o["n"]}" binding="m:{o["binding"]}"><soap:address location="http://example.org/{o["at"]}"/></w:port>' for o in x['ports']) + '</w:service>')
        return ''.join(out + ['</w:definitions>']).encode()

    # --- the scratch directory
    def __enter__(self):
        self.scratch = tempfile.mkdtemp(prefix='verif-world-')
        self.top = os.path.join(os.path.realpath(self.scratch), 'top', 'r')
        os.makedirs(self.top)
        self.cwd = os.getcwd()
        self.contents = {}
        for label, server in servers().items():
            server.world = self
        for doc in self.docs:
            for x in [*doc['refs'], *(a for s in doc['schemas'] for y in s['refs'] for a in y['at'])]:
                x['url'] = bool(doc['loc']['h'])
        for doc in self.docs:
            loc, content = doc['loc'], self.doc_xml(doc)
            if loc['h']:
                self.contents[loc['h'], '/' + '/'.join(loc['p']) + ('?' + loc['q'] if loc['q'] else '')] = content
            else:
                path = os.path.join(self.top, *loc['p'])
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as f:
                    f.write(content)
        return self

    def decoys(self, dirs):
        """Other documents of the same names where none of the documents is."""
        taken = {tuple(d['loc']['p']) for d in self.docs if not d['loc']['h']}
        number = 0
        for doc in self.docs:
            for d in dirs:
                p = (*d, doc['loc']['p'][-1])
                if p in taken:
                    continue
                number += 1
                path = os.path.join(self.top, *p)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as f:
                    f.write(f'<xs:schema xmlns:xs="{XSD}" targetNamespace="urn:decoy"><xs:complexType name="Decoy{number}"><xs:sequence/>'
                            '</xs:complexType></xs:schema>'.encode())

    def start(self):
        self.watch = Watch(os.path.join(self.scratch, 'top'))

    def __exit__(self, *args):
        os.chdir(self.cwd)
        for server in servers().values():
            server.world = None
        if hasattr(self, 'watch'):
            self.watch.close()
        shutil.rmtree(self.scratch)

    # --- what is opened
    def drain(self):
        for path in self.watch.drain():
            p = os.path.relpath(path, self.top).split(os.sep)
            self.events.append(event('open', loc=location('', p)))

    def requested(self, label, path):
        with self.lock:
            self.drain()
            p, _, q = path.partition('?')
            self.events.append(event('open', loc=location(label, p.split('/')[1:], q)))
            return self.contents.get((label, path))

    def opened(self):
        """The locations opened since the last time."""
        with self.lock:
            self.drain()
            found = [e['loc'] for e in self.events]
            self.events = []
        return found

    def spec(self, given):
        def clean(x):
            return {k: x[k] for k in ('abs', 'root', 'h', 'p', 'q')}

        def schema(s):
            return {'ns': s['ns'], 'simple': [{'n': t['n'], 'base': t['base']} for t in s['simple']],
                    'complex': [{k: t[k] for k in ('n', 'base', 'fields')} for t in s['complex']], 'elements': s['elements'],
                    'refs': [{'how': x['how'], 'ns': x['ns'], 'at': [clean(a) for a in x['at']]} for x in s['refs']]}
        return {'docs': [{'loc': d['loc'], 'refs': [clean(x) for x in d['refs']], 'schemas': [schema(s) for s in d['schemas']],
                          'wsdl': {**NOTHING, **d.get('wsdl', {})}} for d in self.docs],
                'root': self.root + 1, 'given': given}


NO_LOC = location('', [])
NOTHING = {'messages': [], 'portTypes': [], 'bindings': [], 'services': []}


def offer(docs, ports, put=lambda: 0):
    """The documents offer the elements: ports: <<[service, <<(namespace, element)>>]>>; put tells where each part is."""
    for k in range(len(docs)):
        if docs[k]['kind'] == 'wsdl':
            docs[k].setdefault('wsdl', {part: [] for part in NOTHING})

    def to(part, value):
        docs[put()]['wsdl'][part].append(value)
    services = {}
    for k, (service, elements) in enumerate(ports, 1):
        for j, (ns, e) in enumerate(elements, 1):
            to('messages', {'n': f'In{k}{j}', 'ns': ns, 'e': e})
        to('portTypes', {'n': f'Type{k}', 'ops': [{'n': f'Op{j}', 'm': f'In{k}{j}'} for j in range(1, len(elements) + 1)]})
        to('bindings', {'n': f'Bind{k}', 'type': f'Type{k}', 'ops': [{'n': f'Op{j}', 'action': f'urn:op{k}{j}'} for j in range(1, len(elements) + 1)]})
        services.setdefault(service, []).append({'n': f'Port{k}', 'binding': f'Bind{k}', 'at': f'at{k}'})
    for n, all_ports in services.items():
        to('services', {'n': n, 'ports': all_ports})



def event(op, ok=True, loc=NO_LOC, n='', bases=(), ns='', simple=(), complex=(), elements=(), imports=(), includes=(), schemas=(), opened=(),
          what='', at='', ops=()):
    return {'op': op, 'ok': ok, 'loc': loc, 'n': n, 'bases': list(bases), 'ns': ns, 'simple': list(simple), 'complex': list(complex),
            'elements': list(elements), 'imports': list(imports), 'includes': list(includes), 'schemas': list(schemas),
            'opened': list(opened), 'what': what, 'at': at, 'ops': list(ops)}


# --- Generating ----------------------------------------------------------------------------------
class Input:
    def __init__(self, data):
        self.buffer = io.BytesIO(data)


def generate(world, way, limited, target='client', encoding='utf8'):
    """Generate code for the root document; way: ('cli'/'stdin'/'api', path or directory)."""
    doc = world.docs[world.root]
    how, where = way
    is_wsdl = doc['kind'] == 'wsdl'

    def run():
        if how == 'api':
            content = world.doc_xml(doc)
            if is_wsdl:
                return wsdl2py.generate_code_from_wsdl(content, target, cwd=where)
            return xsd2py.generate_code_from_xsd(content, cwd=where)
        out = os.path.join(world.scratch, 'out.py')
        args = [where, out]
        stdin = sys.stdin
        if how == 'stdin':
            sys.stdin = Input(world.doc_xml(doc))
        try:
            if is_wsdl:
                wsdl2py.main(['-c' if target == 'client' else '-s', *args])
            else:
                xsd2py.main(args)
        finally:
            sys.stdin = stdin
        with open(out, 'rb') as f:
            return f.read()
    try:
        code = limited(run)
    except SystemExit as e:
        return None, f'SystemExit {e}'
    except Exception as e:  # noqa: B902
        return None, f'{type(e).__name__}: {e}'
    return code, ''


NUMBER = iter(range(10 ** 9))


@contextlib.contextmanager
def recorded(events):
    """Schemas which are built and the types which a module defines are events."""
    built = []
    init, build_class, new_service = xsd.Schema.__init__, builtins.__build_class__, soap.Service.__init__

    def schema_init(self, *args, **kw):
        init(self, *args, **kw)
        built.append(self)
        number = {id(s): k for k, s in enumerate(built, 1)}
        events.append(event('schema', ns=self.targetNamespace or '', simple=[lower(t.__name__) for t in self.simpleTypes],
                            complex=[lower(t.__name__) for t in self.complexTypes], elements=list(self.elements),
                            imports=[number.get(id(s), 0) for s in self.imports], includes=[number.get(id(s), 0) for s in self.includes]))

    def service_init(self, *args, **kw):
        new_service(self, *args, **kw)
        events.append(event('service', n=self.name, ns=self.targetNamespace or '', at=self.location.replace('${scheme}://${host}/', ''),
                            ops=[{'n': m.operationName, 'action': m.soapAction, 'input': m.input if isinstance(m.input, str) else ''} for m in self.methods]))

    def class_(func, name, *bases, **kw):
        cls = build_class(func, name, *bases, **kw)
        if issubclass(cls, (xsd.SimpleType, xsd.ComplexType)):
            events.append(event('class', n=lower(name), bases=[lower(b.__name__) for b in cls.__bases__]))
        return cls
    xsd.Schema.__init__, soap.Service.__init__ = schema_init, service_init
    try:
        yield built, class_
    finally:
        xsd.Schema.__init__, soap.Service.__init__ = init, new_service


def lower(name):
    """The name of the type for a class: generated classes have an upper-case first letter."""
    return name[:1].lower() + name[1:]


def define(code, events):
    """Import the module with the code."""
    name = f'generated_world_{os.getpid()}_{next(NUMBER)}'
    module = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, None))
    sys.modules[name] = module
    try:
        with recorded(events) as (built, class_):
            module.__dict__['__builtins__'] = {**vars(builtins), '__build_class__': class_}
            try:
                exec(compile(code, name, 'exec'), module.__dict__)
            except Exception as e:  # noqa: B902
                events.append(event('imported', ok=False, what=f'{type(e).__name__}: {e}'))
                return
        events.append(event('imported'))
        schemas = []
        for s in built:
            try:
                schemas.append(said(py2xsd.generate_xsd(s)))
            except Exception as e:  # noqa: B902
                events.append(event('quiet', ok=False, what=f'{type(e).__name__}: {e}'))
                return
        events.append(event('content', schemas=schemas))
    finally:
        del sys.modules[name]


def said(root):
    """What a schema document defines."""
    def local(e, name):
        prefix, _, n = (e.get(name) or '').rpartition(':')
        return 'xs:' + n if e.nsmap.get(prefix or None) == XSD else n

    def fields(e):
        return [{'n': f.get('name'), 't': local(f, 'type')} for f in e.findall('{*}sequence/{*}element')]
    simple, complex_, elements = [], [], []
    for e in root:
        kind = etree.QName(e).localname
        if kind == 'simpleType':
            base = local(e.find('{*}restriction'), 'base')
            simple.append({'n': e.get('name'), 'base': '' if base.startswith('xs:') else base})
        elif kind == 'complexType':
            extension = e.find('{*}complexContent/{*}extension')
            complex_.append({'n': e.get('name'), 'base': '' if extension is None else local(extension, 'base'),
                             'fields': fields(e if extension is None else extension)})
        elif kind == 'element':
            inner = e.find('{*}complexType')
            elements.append({'n': e.get('name'), 't': local(e, 'type') if inner is None else '', 'anon': inner is not None,
                             'fields': [] if inner is None else fields(inner)})
    return {'simple': simple, 'complex': complex_, 'elements': elements}
