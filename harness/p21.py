"""P21: documents are read from the location the referrer means, and nothing else is (spec/Codegen.tla, CodegenTrace.tla)."""
import os

import requests
from requests.adapters import HTTPAdapter

import vlib
from p20 import Maker, check_space, run
from worlds import World, event, servers
from soapfish import core, py2xsd, soap, soap_dispatch, xsd

SECRET = 'Tr0ub4dor'
VERSIONS = {'soap11': soap.SOAPVersion.SOAP11, 'soap12': soap.SOAPVersion.SOAP12}
ENVELOPES = {'soap11': 'http://schemas.xmlsoap.org/soap/envelope/', 'soap12': 'http://www.w3.org/2003/05/soap-envelope'}
XSI = 'http://www.w3.org/2001/XMLSchema-instance'


# --- What is read ----------------------------------------------------------------------------------
def generate(r, first, count):
    cases = []
    for _ in range(count):
        m = Maker(r)
        cyclic = r.random() < 0.2
        layout = r.choice(['dirs', 'dirs', 'urls', 'mixed', 'mixed'])
        world = m.schemas(layout, cyclic) if r.random() < 0.6 else m.wsdl(layout, cyclic)
        for doc in world.docs:
            if r.random() < 0.15:
                to = r.choice(['decoy.dtd', '/decoy.dtd', 'http://' + servers()['h1'].authority + '/decoy.dtd'])
                doc['doctype'] = r.choice([f'<!DOCTYPE x SYSTEM "{to}">', f'<!DOCTYPE x [<!ENTITY e SYSTEM "{to}">]>',
                                           f'<?xml-stylesheet type="text/xsl" href="{to}"?>', f'<!DOCTYPE x [<!ENTITY % p SYSTEM "{to}">]>'])
        cwd = r.choice([[], ['a'], ['b'], ['elsewhere'], ['a', 'b'], ['c', 'c', 'c']])
        decoys = [d for d in ([], ['a'], ['b'], ['c'], ['a', 'b'], ['b', 'a'], ['..'], cwd) if r.random() < 0.6]
        way = 'cli' if cyclic else r.choice(['cli', 'cli', 'cli', 'api', 'api', 'stdin'])
        cases.append(run(r, world, way, decoys, cwd))
    return cases


def reply(request, content):
    response = requests.Response()
    response.status_code, response._content, response.encoding = 200, content, 'utf-8'
    response.request, response.url = request, request.url
    return response


# --- What must not read anything -------------------------------------------------------------------
class Quiet:
    """A set of schemas with locations where there are documents, and what is done with it."""

    def __init__(self, r, world):
        self.r, self.world = r, world
        self.top = world.top
        self.files = ['a.xsd', 'b.xsd', 'sub/c.xsd', 'd.dtd', 'secret.txt', 'schema0.xsd', 'schema1.xsd', 'schema2.xsd', 'schema3.xsd']
        for name in self.files:
            path = os.path.join(self.top, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write(self.document(name))
        for label in servers():
            for name in self.files:
                world.contents[label, '/' + name] = self.document(name).encode()
        os.chdir(self.top)

    @staticmethod
    def document(name):
        if name.endswith('.xsd'):
            return ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:o"><xs:element name="o" type="xs:string"/>'
                    f'<xs:element name="{SECRET}" type="xs:string"/></xs:schema>')
        return SECRET if name.endswith('.txt') else f'<!ENTITY e "{SECRET}">'

    def place(self):
        name = self.r.choice(self.files)
        return self.r.choice([name, './' + name, '../r/' + name, os.path.join(self.top, name), 'file://' + os.path.join(self.top, name),
                              f'http://{servers()[self.r.choice(["h1", "h2"])].authority}/{name}'])

    def schemas(self):
        r = self.r
        n = r.choice([1, 2, 3, 4])
        made = []
        used = set()
        for k in range(n):
            class T(xsd.ComplexType):
                x = xsd.Element(xsd.String, minOccurs=0)
            T.__name__ = f'T{k}'
            location = self.place()
            while location in used:
                location = self.place()
            used.add(location)
            others = [s for s in made if r.random() < 0.6]
            space = r.choice(['urn:o', 'urn:p', 'urn:q'])
            made.append(xsd.Schema(space, location=location, elementFormDefault='qualified', complexTypes=[T],
                                   elements={f'e{k}': xsd.Element(T), 'o' if k == 0 else f'o{k}': xsd.Element(xsd.String)},
                                   imports=[s for s in others if s.targetNamespace != space],
                                   includes=[s for s in others if s.targetNamespace == space]))
        self.names = {id(s): k for k, s in enumerate(made)}
        return made

    def text(self, space, name, content=None):
        """A document which would have something read."""
        r = self.r
        to = self.place()
        pre, attrs, inner = '', '', content or ''
        way = r.choice(['plain', 'entity', 'dtd', 'parameter', 'hint', 'nohint', 'include', 'pi', 'unused', 'stylesheet'])
        if way == 'entity':
            pre, inner = f'<!DOCTYPE {name} [<!ENTITY e SYSTEM "{to}">]>', '<x>&e;</x>'
        elif way == 'unused':
            pre = f'<!DOCTYPE {name} [<!ENTITY e SYSTEM "{to}"><!ENTITY f "g">]>'
        elif way == 'dtd':
            pre = f'<!DOCTYPE {name} SYSTEM "{to}">'
        elif way == 'parameter':
            pre = f'<!DOCTYPE {name} [<!ENTITY % p SYSTEM "{to}"> %p;]>'
        elif way == 'hint':
            attrs = f' xmlns:xsi="{XSI}" xsi:schemaLocation="{r.choice(["urn:o", "urn:zzz", space])} {to}"'
        elif way == 'nohint':
            attrs = f' xmlns:xsi="{XSI}" xsi:noNamespaceSchemaLocation="{to}"'
        elif way == 'include':
            inner = f'<x><xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{to}" parse="text"/></x>'
        elif way in ('pi', 'stylesheet'):
            pre = f'<?xml-stylesheet type="text/xsl" href="{to}"?>'
        return pre, f'<{name} xmlns="{space}"{attrs}>{inner}</{name}>'

    def tell(self, what, func):
        self.world.opened()
        try:
            result = func()
        except Exception as e:  # noqa: B902
            result = f'{type(e).__name__}: {e}'
        opened = self.world.opened()
        leaked = SECRET in (result if isinstance(result, str) else (result or b'').decode('utf-8', 'replace') if isinstance(result, (bytes, type(None))) else '')
        self.events.append(event('quiet', ok=not leaked, opened=opened, what=what))

    def observe(self):
        r = self.r
        self.events = []
        schemas = self.schemas()
        root = schemas[-1]
        k = self.names[id(root)]
        T = root.complexTypes[0]
        self.world.start()
        held = {}

        def build():
            held['validate'] = py2xsd.schema_validator([root])
        self.tell('building a validator', build)

        def unknown():
            # A location which none of the schemas has.
            original = py2xsd.generate_xsd
            from lxml import etree
            strange = self.place()

            def generate_xsd(schema):
                xml = original(schema)
                e = etree.Element('{http://www.w3.org/2001/XMLSchema}import', namespace='urn:unknown', schemaLocation=strange)
                xml.insert(0, e)
                return xml
            py2xsd.generate_xsd = generate_xsd
            try:
                py2xsd.schema_validator([root])
            finally:
                py2xsd.generate_xsd = original
        self.tell('a reference to an unknown location', unknown)
        for _ in range(3):
            pre, text = self.text(root.targetNamespace, f'e{k}')
            self.tell('parsing with a schema: ' + pre + text, lambda: T.parsexml((pre + text).encode(), schema=root).x)
            self.tell('parsing: ' + pre + text, lambda: T.parsexml((pre + text).encode()).x)

            def validate():
                from lxml import etree
                held['validate'](etree.fromstring(pre + text))
            if 'validate' in held:
                self.tell('validating: ' + pre + text, validate)
        self.service(root, T, k)
        return {'world': {'docs': [], 'root': 1, 'given': True}, 'events': self.events}

    def service(self, root, T, k):
        r = self.r
        version = r.choice(list(VERSIONS))

        class Header(xsd.ComplexType):
            o = xsd.Element(xsd.String, minOccurs=0, namespace=root.targetNamespace)
        Header.SCHEMA = root
        answer = r.choice(['echo', 'fail', 'empty'])

        def handler(request, body):
            if answer == 'fail':
                raise core.SOAPError(VERSIONS[version].Code.CLIENT, str(body.x))
            return T(x=body.x) if answer == 'echo' else T()
        held = {}

        def build():
            method = xsd.Method(function=handler, soapAction='urn:op', input=f'e{k}', inputPartName='body', output=f'e{k}', outputPartName='body',
                                operationName='Op')
            service = soap.Service(name='S', targetNamespace='urn:s', location=r.choice(['${scheme}://${host}/ws', self.place()]), schemas=[root],
                                   version=VERSIONS[version], methods=[method], input_header=Header)
            held['service'] = service
            held['d'] = soap_dispatch.SOAPDispatcher(service, strict_soap_header=r.random() < 0.5)
        self.tell('building a dispatcher', build)
        if 'd' not in held:
            return
        env = ENVELOPES[version]
        for _ in range(4):
            pre, text = self.text(root.targetNamespace, f'e{k}')
            head = ''
            if r.random() < 0.4:
                _, block = self.text(root.targetNamespace, r.choice(['o', 'e0']))
                head = f'<s:Header>{block}</s:Header>'
            hint = f' xmlns:xsi="{XSI}" xsi:schemaLocation="{env} {self.place()}"' if r.random() < 0.2 else ''
            content = f'{pre}<s:Envelope xmlns:s="{env}"{hint}>{head}<s:Body>{text}</s:Body></s:Envelope>'.encode()
            environ = {'REQUEST_METHOD': 'POST', 'SOAPACTION': 'urn:op', 'CONTENT_TYPE': 'application/soap+xml; action="urn:op"'}
            self.tell(f'dispatching {content.decode()}', lambda: held['d'].dispatch(core.SOAPRequest(environ, content)).http_content)
        for _ in range(4):
            query = r.choice(['wsdl', 'xsd=' + self.place(), 'xsd=' + root.location, 'wsdl=' + self.place(), 'xsd=../r/secret.txt',
                              'xsd=' + os.path.join(self.top, 'secret.txt'), 'xsd=%2e%2e/r/secret.txt', 'xsd=schema0.xsd', 'xsd=a.xsd'])
            environ = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': query, 'HTTP_HOST': 'x.org'}

            def get():
                request = core.SOAPRequest(environ, b'')
                return held['d'].dispatch(request).http_content
            self.tell(f'asking for {query}', get)
        pre, text = self.text(root.targetNamespace, f'e{k}')
        content = f'{pre}<s:Envelope xmlns:s="{env}"><s:Body>{text}</s:Body></s:Envelope>'.encode()

        def call():
            class Stub(soap.Stub):
                SERVICE = held['service']
            original = HTTPAdapter.send
            HTTPAdapter.send = lambda self, request, *args, **kw: reply(request, content)
            try:
                return str(Stub(location='http://localhost/ws').call('Op', T(x='1')).soap_body.x)
            finally:
                HTTPAdapter.send = original
        self.tell(f'a response {content.decode()}', call)


def quiet(r, first, count):
    cases = []
    for _ in range(count):
        with World([]) as world:
            cases.append(Quiet(r, world).observe())
    return cases


def body(check):
    check_space(check, 'docs', vlib.scale(3, 4), ['flat', 'dir', 'deep', 'url'], vlib.scale(500, 6000), ([], ['b'], ['b', 'c'], ['elsewhere']), ['elsewhere'])
    cases = vlib.generate(generate, 'p21', vlib.scale(500, 6000))
    check.sample({k: v for k, v in cases[0].items() if k != 'code'})
    for start in range(0, len(cases), 1000):
        check.validate('CodegenTrace', cases[start:start + 1000], timeout=1500)
    cases = vlib.generate(quiet, 'p21/quiet', vlib.scale(600, 6000))
    check.sample(cases[0])
    for start in range(0, len(cases), 1000):
        check.validate('CodegenTrace', cases[start:start + 1000], name='CodegenTrace (quiet)', timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P21', body))
