"""P06: the documents the HTTP entry publishes (spec/Documents.tla, DocumentTrace.tla, DocumentSpace.tla)."""
import copy
import hashlib
import io
from urllib.parse import quote

from lxml import etree

import vlib
from soapfish import core, py2wsdl, py2xsd, soap, soap_dispatch, xsd

XSD = 'http://www.w3.org/2001/XMLSchema'
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAPS = {'http://schemas.xmlsoap.org/wsdl/soap/', 'http://schemas.xmlsoap.org/wsdl/soap12/'}
VERSIONS = {'soap11': soap.SOAPVersion.SOAP11, 'soap12': soap.SOAPVersion.SOAP12}
LOCATIONS = ['a.xsd', 'b.xsd', 'dir/c.xsd', 'xsd', 'http://x.org/d.xsd', 'e.xsd?v=1&w=2', 'f+g.xsd', 'h i.xsd', 'j%20k.xsd', 'l;m.xsd',
             'ö.xsd', 'A.XSD', 'a.xsd.xsd', 'wsdl', 'n#o.xsd', "p'q.xsd", '&.xsd', 'x=y', 'r"s.xsd', '<t>.xsd']
ADDRESSES = ['${scheme}://${host}/ws', '${scheme}://${host}/ws?a=1&b=2', 'http://fixed.org/ws', '${scheme}://${host}/${host}', '${scheme}://fixed/${other}',
             '${scheme}://${host}', 'http://${host}/$5', '${scheme}://${host}/a b']
HOSTS = ['example.org', 'example.org:8080', '[::1]:80', 'a-b.c', 'x&y', "x'y", 'x$y', 'x!(y)*+,;=z', '%41', 'EXAMPLE.org', '1.2.3.4', 'x"y', 'x<y>']
PROTOS = ['http', 'https', 'HTTPS', 'a+b-c.d']
FORMS = [xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED]


def utf8(text):
    return list(text.encode())


def blanked(root):
    """The content of a document without locations and addresses."""
    root = copy.deepcopy(root)
    for e in root.iter('{*}import', '{*}include', '{*}address'):
        for name in ('schemaLocation', 'location'):
            if e.get(name) is not None:
                e.set(name, '-')
    for e in root.iter():
        if not (e.text or '').strip():
            e.text = None
        if not (e.tail or '').strip():
            e.tail = None
    out = io.BytesIO()
    root.getroottree().write_c14n(out, exclusive=True)
    return hashlib.sha1(out.getvalue()).hexdigest()


def references(schema):
    return [{'kind': etree.QName(e).localname, 'ns': e.get('namespace') or '', 'at': [] if e.get('schemaLocation') is None else [ask(e.get('schemaLocation'))]}
            for e in schema.iterchildren('{%s}import' % XSD, '{%s}include' % XSD)]


def ask(ref):
    """The reference as a client sends it."""
    return utf8(quote(ref, safe="!#$%&'()*+,/:;=?@[]~"))


class Published:
    """A service whose schemas refer to one another as a graph tells."""

    def __init__(self, r, graph, plain=False):
        self.r = r
        n = len(graph)
        locations = LOCATIONS[:2] + r.sample(LOCATIONS[2:], min(n, len(LOCATIONS) - 2))
        r.shuffle(locations)
        self.schemas = self.documents(r, graph, locations, plain)
        self.calls = 0

        def handler(request, body):
            self.calls += 1
            return body
        self.version = r.choice(sorted(VERSIONS))
        self.address = ADDRESSES[0] if plain else r.choice(ADDRESSES)
        methods = [xsd.Method(f'Do{k}', f'urn:do{k}', input='el1', output='el1', function=handler) for k in range(r.randint(1, 2))]
        self.service = soap.Service('urn:service', self.address, [self.schemas[0]], methods, version=VERSIONS[self.version])
        # What is published may be given, rather than derived from the service.
        given, self.shown, self.listed = {}, self.service, self.schemas
        if not plain and r.random() < 0.25:
            others = self.documents(r, graph, [s.location for s in self.schemas], True, given=True)
            address = r.choice(ADDRESSES)
            other = soap.Service('urn:other', address, [others[0]], methods, version=VERSIONS[self.version])
            source = soap_dispatch.SOAPDispatcher(other)
            which = r.choice(['wsdl', 'xsds', 'both'])
            if which != 'xsds':
                given['wsdl'], self.shown, self.address = source.wsdl, other, address
            if which != 'wsdl':
                given['xsds'], self.listed = source.xsds, others
        self.dispatcher = soap_dispatch.SOAPDispatcher(self.service, **given)
        self.events, self.pending = [], set()
        self.graph = graph

    def documents(self, r, graph, locations, plain, given=False):
        schemas = []
        targets = {y for d in graph for y in d['im'] + d['inc']}
        included = {y for d in graph for y in d['inc']}
        for x, d in enumerate(graph, 1):
            loc = locations[x - 1] if given else f'{chr(96 + x)}.xsd' if plain else locations.pop()
            if not plain and x not in included and r.random() < (0.1 if x in targets else 0.5):
                loc = None
            kind = type(f'Kind{x}', (xsd.ComplexType,), {'v': xsd.Element(xsd.String(enumeration=self.texts()))})
            elements = {f'el{x}': xsd.Element(kind), f'more{x}': xsd.Element(r.choice([xsd.Int, xsd.String, xsd.Date]))}
            schemas.append(xsd.Schema(d['a'], elementFormDefault=r.choice(FORMS), complexTypes=[kind], elements=elements, location=loc))
        for schema, d in zip(schemas, graph):
            schema.imports = [schemas[y - 1] for y in d['im']]
            schema.includes = [schemas[y - 1] for y in d['inc']]
        return schemas

    def texts(self):
        r = self.r
        return r.sample(['a', '${host}', '${scheme}://', " location='${host}'", '$', '$$', '&<>"', '{x}'], r.randint(1, 3))

    def spec(self):
        return {
            'schemas': [{'loc': utf8(s.location or ''), 'tns': s.targetNamespace, 'imports': d['im'], 'includes': d['inc'],
                         'digest': blanked(py2xsd.generate_xsd(s))} for s, d in zip(self.listed, self.graph)],
            'roots': [1], 'address': utf8(self.address), 'wsdl': blanked(py2wsdl.generate_wsdl(self.shown)), 'version': self.version}

    def get(self, query, method='GET', **env):
        environ = {'REQUEST_METHOD': method, 'QUERY_STRING': query, **env}
        if method is None:
            del environ['REQUEST_METHOD']
        if query is None:
            del environ['QUERY_STRING']
        before = self.calls
        response = self.dispatcher.dispatch(core.SOAPRequest(environ, b''))
        body = response.http_content
        a = {'status': response.http_status_code, 'ctype': response.http_headers.get('Content-Type', ''), 'bytes': isinstance(body, bytes),
             'kind': 'text', 'digest': '', 'refs': [], 'schemas': [], 'addresses': [], 'handlers': self.calls - before}
        try:
            root = etree.fromstring(body)
        except (etree.XMLSyntaxError, ValueError):
            root = None
        if root is not None:
            name = etree.QName(root)
            a['kind'] = {(WSDL, 'definitions'): 'wsdl', (XSD, 'schema'): 'schema'}.get((name.namespace, name.localname), 'soap' if name.localname == 'Envelope' else 'other')
            a['digest'] = blanked(root)
            if a['kind'] == 'schema':
                a['refs'] = references(root)
            if a['kind'] == 'wsdl':
                a['schemas'] = [references(e) for e in root.iterfind('{%s}types/{%s}schema' % (WSDL, XSD))]
                a['addresses'] = [utf8(e.get('location')) for e in root.iter() if isinstance(e.tag, str)
                                  and etree.QName(e).localname == 'address' and etree.QName(e).namespace in SOAPS]
        protos = [env[k] for k in ('HTTP_X_FORWARDED_PROTO', 'X_FORWARDED_PROTO') if k in env]
        q = {'method': utf8(method or ''), 'query': utf8(query or ''), 'host': [utf8(env['HTTP_HOST'])] if 'HTTP_HOST' in env else [],
             'proto': [utf8(p) for p in protos], 'url': utf8(env.get('wsgi.url_scheme', 'http'))}
        self.events.append({'op': 'get', 'q': q, 'a': a})
        for ref in a['refs'] + [x for refs in a['schemas'] for x in refs]:
            for at in ref['at']:
                url = bytes(at).decode()
                if url.startswith('?'):
                    self.pending.add(url[1:])
        return a

    def walk(self, start, **env):
        """Reads a document and everything any document refers to."""
        todo, seen = [start, *self.pending], set()
        while todo:
            query = todo.pop()
            if query in seen:
                continue
            seen.add(query)
            a = self.get(query, **env)
            todo.extend(sorted(self.pending - seen))
        self.events.append({'op': 'end'})

    def case(self):
        return {'service': self.spec(), 'events': self.events}


def environment(r):
    env = {}
    if r.random() < 0.8:
        env['HTTP_HOST'] = r.choice(HOSTS)
    if r.random() < 0.7:
        env['wsgi.url_scheme'] = r.choice(PROTOS)
    if r.random() < 0.3:
        env['HTTP_X_FORWARDED_PROTO'] = r.choice(PROTOS)
    return env


def some_query(r, p):
    locations = [s.location for s in p.schemas if s.location] + ['nowhere.xsd', 'xsd', '', 'None']
    loc = r.choice(locations)
    value = r.choice([quote(loc), quote(loc, safe=''), ''.join('%%%02x' % b for b in loc.encode())])
    if r.random() < 0.2:
        value = value.replace('%20', '+')
    return r.choice(['wsdl', 'singleWsdl', 'wsdl=', 'wsdl=1', 'singleWsdl=True', 'w%73dl', 'a=b&wsdl', 'wsdl&a', '&&wsdl', 'WSDL', 'singlewsdl', 'wsdl1',
                     'xsd', 'xsd=', 'x=wsdl', 'xsd=wsdl', '', None, 'a', 'xsd=a.xsd&xsd=b.xsd', 'wsdl&xsd=' + value, 'XSD=' + value,
                     *['xsd=' + value] * 8, 'a=b&xsd=' + value, 'xsd=' + value + '&c'])


def random_graph(r):
    n = r.randint(1, 6)
    kinds = ['urn:a'] + [r.choice(['urn:a', 'urn:b', 'urn:c']) for _ in range(n - 1)]
    graph = [{'a': k, 'im': [], 'inc': []} for k in kinds]
    for y in range(2, n + 1):       # everything can be reached
        x = r.randint(1, y - 1)
        graph[x - 1]['inc' if kinds[x - 1] == kinds[y - 1] else 'im'].append(y)
    for _ in range(r.choice([0, 0, 1, 3])):
        x, y = r.randint(1, n), r.randint(1, n)
        which = graph[x - 1]['inc' if kinds[x - 1] == kinds[y - 1] else 'im']
        if x != y and y not in which:
            which.append(y)
    for d in graph:
        r.shuffle(d['im'])
        r.shuffle(d['inc'])
    return graph


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        graph = random_graph(r)
        p = Published(r, graph)
        p.walk(r.choice(['wsdl', 'singleWsdl', 'wsdl=x']), **environment(r))
        for _ in range(12):
            method = r.choice(['GET'] * 12 + ['HEAD', 'PUT', 'get', 'OPTIONS', None, 'POST'])
            p.get(some_query(r, p), method, **environment(r))
        p.walk('wsdl', **environment(r))
        cases.append(p.case())
    return cases


def replay(graphs, name):
    r = vlib.rng(name)
    cases = []
    for graph in graphs:
        p = Published(r, graph, plain=True)
        p.walk('wsdl', HTTP_HOST='h')
        cases.append(p.case())
    return cases


def body(check):
    n = vlib.scale(3, 4)
    reports = check.explore('DocumentSpace', f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\nINVARIANTS Served Complete Report\nPROPERTIES Ends',
                            timeout=1500)
    reports = [x['schemas'] for x in reports]
    r = vlib.rng('graphs')
    if len(reports) > 6000:
        reports = r.sample(sorted(reports, key=str), 6000)
    parts = [(reports[k::14], f'replay/{k}') for k in range(14)]
    cases = [case for part in vlib.parallel(replay, [p for p in parts if p[0]]) for case in part]
    check.replayed(len(cases), 'DocumentSpace')
    for start in range(0, len(cases), 2000):
        check.validate('DocumentTrace', cases[start:start + 2000], name='DocumentTrace (all graphs)', timeout=1500)
    cases = vlib.generate(generate, 'p06', vlib.scale(1200, 6000))
    check.sample(cases[0])
    for start in range(0, len(cases), 1000):
        check.validate('DocumentTrace', cases[start:start + 1000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P06', body))
