"""P09: a call through a client stub is a call of the handler (spec/StubTrace.tla)."""
import base64
import io

import requests
from lxml import etree

import dispatching
import vlib
from dispatching import EMPTY, Recorder, ServiceGenerator
from model import NONE, snap, tree_of
from simple import cps
from soapfish import core, middlewares, soap, soap_dispatch

HOSTS = ['www.example.net', 'localhost:8080', 'a.b', '127.0.0.1']
MESSAGES = ['no', 'x: y', 'Größe <&>', 'line\nline', 'a  b', '\x00', 'tab\t', '😀', '0', ']]>']
CODES = ['Server', 'Client', 'ns0:Sender', 'ns0:Receiver', 'Mine', 'app:Code.1']


class Wire:
    """Takes the HTTP requests of the requests library to a WSGI application."""

    def __init__(self, rec):
        self.rec, self.app = rec, None

    def send(self, adapter, request, **kw):
        body = request.body if isinstance(request.body, bytes) else (request.body or '').encode()
        headers = {(k if isinstance(k, str) else k.decode()).lower(): v if isinstance(v, str) else v.decode('latin-1') for k, v in request.headers.items()}
        try:
            tree, wf = tree_of(etree.fromstring(body)), 'yes'
        except etree.XMLSyntaxError:
            tree, wf = EMPTY, 'no'
        self.rec.emit('wire', url=cps(request.url), method=request.method, wf=wf, tree=tree, auth=headers.get('authorization', ''),
                      acts=[cps(headers.get(n, '')) for n in ('soapaction', 'action')], ctype=cps(headers.get('content-type', '')))
        env = {'REQUEST_METHOD': request.method, 'QUERY_STRING': '', 'CONTENT_LENGTH': str(len(body)), 'wsgi.input': io.BytesIO(body), 'wsgi.url_scheme': 'http'}
        for k, v in headers.items():
            name = k.upper().replace('-', '_')
            env[name if name in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + name] = v
        response = requests.Response()

        def start_response(status, headers, exc_info=None):
            response.status_code = int(status.split()[0])
            response.headers.update(headers)
        content = b''.join(self.app(env, start_response))
        response.raw = io.BytesIO(content)
        response.url, response.request = request.url, request
        out = {'wf': False, 'tree': EMPTY}
        try:
            out = {'wf': True, 'tree': tree_of(etree.fromstring(content))}
        except etree.XMLSyntaxError:
            pass
        self.rec.emit('reply', status=response.status_code, **out)
        return response


def snap_or_none(s, o):
    return NONE if o is None else snap(s, o)


class Sides:
    """The client's and the server's side of a service."""

    def __init__(self, r, g, s, template):
        self.r, self.g, self.s, self.template = r, g, s, template
        self.rec = Recorder(s)
        self.rec.local.r = 1
        self.wire = Wire(self.rec)
        for k, method in enumerate(s.methods, 1):
            s.service.route(method.operationName)(self.function(k))
        s.service.location = template
        self.wire.app = soap_dispatch.WsgiSoapApplication(soap_dispatch.SOAPDispatcher(
            s.service, middlewares=[middlewares.ExceptionToSoapFault()], strict_soap_header=s.strict))
        self.stubs = [self.stub() for _ in range(r.choice([1, 1, 2]))]

    def function(self, o):
        def function(request, body):
            self.rec.emit('handler', o=o, body=snap(self.s, body), hdr=snap_or_none(self.s, request.soap_header))
            try:
                result = self.result(self.s.ops[o - 1], request)
            except Exception as e:  # noqa: B902
                self.rec.emit('hdone', v=self.rec.value('raise', e))
                raise
            self.rec.emit('hdone', v=self.rec.value('obj', result))
            return result
        return function

    def result(self, op, request):
        r, g, s = self.r, self.g, self.s
        way = r.randrange(10)
        if way == 0:
            raise r.choice([ValueError, KeyError, RuntimeError])(r.choice(MESSAGES))
        if way in (1, 2):
            error = core.SOAPError(r.choice(CODES), r.choice(MESSAGES), *r.choice([(), ('actor',)]))
            if way == 1:
                raise error
            return error if r.random() < 0.5 else core.SOAPResponse(error)
        result = g.result(s, op)
        name = op.outh or s.outh
        hdr = g.header_object(s, name) if name and r.random() < 0.7 and self.header_ok(name) else None
        return result if hdr is None and r.random() < 0.5 else core.SOAPResponse(result, soap_header=hdr)

    def header_ok(self, name):
        return self.g.header_renders(self.s, name) or self.r.random() < 0.1

    def stub(self):
        r = self.r
        scheme, host = r.choice(['http', 'https']), r.choice(HOSTS)
        cls = type('Client', (soap.Stub,), {'SERVICE': self.s.service, 'SCHEME': scheme, 'HOST': host})
        way = r.choice(['template', 'template', 'text', 'callable'])
        url = r.choice(['http://other.example/x?y=1', 'https://h:81/ws'])
        kw = {}
        if way == 'text':
            kw['location'] = url
        elif way == 'callable':
            kw['location'] = lambda template, context: url if (template, context) == (self.template, {'scheme': scheme, 'host': host}) else 'http://wrong/'
        auth = ''
        if r.random() < 0.2:
            user, password = self.r.choice(['me', 'you@x.org', '0']), self.r.choice(['se:cret', '', ' '])
            kw.update(username=user, password=password)
            auth = 'Basic ' + base64.b64encode(f'{user}:{password}'.encode()).decode()
        if r.random() < 0.3:
            cls.SERVICE = None
            kw['service'] = self.s.service
        return cls(**kw), {'loc': way, 'url': cps(url), 'scheme': cps(scheme), 'host': cps(host), 'auth': auth}

    def call(self):
        r, g, s = self.r, self.g, self.s
        k = r.randrange(len(s.ops))
        op = s.ops[k]
        stub, info = r.choice(self.stubs)
        m = g.owner(s.models, op.input['n'])
        body = g.obj(m, op.input['type'], complete=r.choice([1, 1, 1, 0.9]))
        name = op.inh or s.inh
        hdr = g.header_object(s, name) if name and r.random() < 0.7 and self.header_ok(name) else None
        rec = self.rec
        rec.emit('call', o=k + 1, body=snap(s, body), hdr=snap_or_none(s, hdr), **info)
        e = {'k': 'resp', 'body': NONE, 'hdr': NONE, 'err': False, 'code': [], 'msg': [], 'cls': ''}
        try:
            response = stub.call(op.name, body, *([] if hdr is None and r.random() < 0.5 else [hdr]))
        except Exception as exc:  # noqa: B902
            e.update(k='raise', cls=type(exc).__name__, err=isinstance(exc, core.SOAPError))
            if e['err']:
                e.update(code=cps(str(exc.code)), msg=cps('' if exc.message is None else str(exc.message)))
        else:
            e.update(body=snap_or_none(s, response.soap_body), hdr=snap_or_none(s, response.soap_header))
        rec.emit('done', **e)

    def case(self):
        return {'service': self.s.spec(), 'location': cps(self.template), 'events': self.rec.events}


def generate(r, first, count):
    send = requests.adapters.HTTPAdapter.send
    cases = []
    try:
        for k in range(first, first + count):
            g = ServiceGenerator(r, recursion=k % 4 == 0)
            while True:
                s = g.service(same_input=0, headers=0.5, header_ns=r.random() < 0.85)
                if len({op.action for op in s.ops if op.action}) == sum(1 for op in s.ops if op.action):
                    break
                s.close()
            try:
                sides = Sides(r, g, s, r.choice(['${scheme}://${host}/ws', '${scheme}://${host}/a/b?c=d', 'http://fixed.example/ws', '${scheme}://x.${host}/${scheme}', '${scheme}://${host}/$metadata', 'http://fixed.example/$5?$top=1']))
                requests.adapters.HTTPAdapter.send = lambda adapter, request, sides=sides, **kw: sides.wire.send(adapter, request, **kw)
                for _ in range(6):
                    sides.call()
                cases.append(sides.case())
            finally:
                s.close()
    finally:
        requests.adapters.HTTPAdapter.send = send
    return cases


def known(case, report):
    return 'header-namespace' if report['bad'] == [dispatching.KNOWN_HEADER] else None


def body(check):
    cases = vlib.generate(generate, 'p09', vlib.scale(1000, 8000))
    check.sample(cases[0])
    for start in range(0, len(cases), 1000):
        check.validate('StubTrace', cases[start:start + 1000], key=known, timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P09', body))
