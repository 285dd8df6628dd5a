"""P08: the WSGI, Flask and Django entries answer what the dispatcher answers (spec/EntryTrace.tla)."""
import hashlib
import io
import logging
from urllib.parse import parse_qsl, quote

import django
import flask
from django.conf import settings
from django.core.handlers.wsgi import WSGIRequest

import vlib
from dispatching import Content, ServiceGenerator
from model import snap
from p01 import some_request
from simple import cps
from soapfish import core, django_, flask_, middlewares, soap_dispatch

settings.configure(ALLOWED_HOSTS=['*'], DEBUG=False, SECRET_KEY='x')
django.setup()
logging.disable(logging.CRITICAL)
APP = flask.Flask('entries')

NAMES = {'SOAPACTION': 'SOAPAction', 'HTTP_SOAPACTION': 'SOAPAction', 'ACTION': 'Action', 'HTTP_ACTION': 'Action', 'CONTENT_TYPE': 'Content-Type'}
JUNK = b'</more>GET / HTTP/1.1\r\n\r\n'


class Connection(io.RawIOBase):
    """What a server gives to an application: the body and whatever follows on the connection."""

    def __init__(self, data):
        self.data, self.taken = data, 0

    def read(self, size=-1):
        end = len(self.data) if size is None or size < 0 else min(len(self.data), self.taken + size)
        part = self.data[self.taken:end]
        self.taken = end
        return part

    def readable(self):
        return True

    def readinto(self, b):
        part = self.read(len(b))
        b[:len(part)] = part
        return len(part)

    def readline(self, size=-1):
        at = self.data.find(b'\n', self.taken)
        end = len(self.data) if at < 0 else at + 1
        return self.read(end - self.taken if size is None or size < 0 else min(size, end - self.taken))


class Http:
    """An HTTP request."""

    def __init__(self, method, query, headers, body, length='exact', scheme='http'):
        self.method, self.query, self.headers, self.body, self.scheme = method, query, headers, body, scheme
        self.length = {'exact': len(body), 'none': 0, 'empty': 0, 'short': len(body) // 2}[length]
        self.content_length = {'none': None, 'empty': ''}.get(length, str(self.length))

    @property
    def content(self):
        return self.body[:self.length]

    def spec(self):
        seen = Content({}, self.content, wf='maybe')
        return {'method': self.method, 'query': [{'k': k, 'v': cps(v)} for k, v in parse_qsl(self.query, keep_blank_values=True)],
                'headers': [{'n': n.lower(), 'v': cps(v)} for n, v in self.headers], 'length': self.length, 'wf': seen.wf, 'tree': seen.tree}

    def environ(self):
        env = {'REQUEST_METHOD': self.method, 'QUERY_STRING': self.query, 'SCRIPT_NAME': '', 'PATH_INFO': '/ws', 'SERVER_NAME': 'localhost',
               'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.version': (1, 0), 'wsgi.url_scheme': self.scheme,
               'wsgi.errors': io.StringIO(), 'wsgi.multithread': True, 'wsgi.multiprocess': False, 'wsgi.run_once': False}
        for n, v in self.headers:
            name = n.upper().replace('-', '_')
            env[name if name == 'CONTENT_TYPE' else 'HTTP_' + name] = v
        if self.content_length is not None:
            env['CONTENT_LENGTH'] = self.content_length
        env['wsgi.input'] = Connection(self.body + JUNK)
        return env


def digest(data):
    return hashlib.sha1(data if isinstance(data, bytes) else repr(data).encode()).hexdigest()


def answer(status, reason, headers, body):
    return {'k': 'answer', 'status': status, 'reason': reason, 'digest': digest(body), 'bytes': isinstance(body, bytes), 'cls': '',
            'ctype': next((v for k, v in headers if k.lower() == 'content-type'), ''),
            'xh': [f'{k.lower()}: {v}' for k, v in headers if k.lower() not in ('content-type', 'content-length', 'server', 'date')]}


class Entries:
    """All entries of one service."""

    def __init__(self, s, handler, **kw):
        self.s, self.handler = s, handler
        self.calls = []
        for k, method in enumerate(s.methods, 1):
            method.function = self.function(k)
        self.dispatcher = soap_dispatch.SOAPDispatcher(s.service, **kw)
        self.wsgi_app = soap_dispatch.WsgiSoapApplication(soap_dispatch.SOAPDispatcher(s.service, **kw))
        self.flask_view = flask_.flask_dispatcher(s.service, **kw)
        self.django_view = django_.django_dispatcher(s.service, **kw)

    def function(self, o):
        def function(request, body):
            self.calls.append({'o': o, 'body': snap(self.s, body), 'hdr': digest(repr(request.soap_header and snap(self.s, request.soap_header)).encode())})
            return self.handler(o, request, body)
        return function

    def run(self, entry, q):
        env = q.environ()
        conn = env['wsgi.input']
        self.calls = []
        try:
            a = getattr(self, entry)(q, env)
        except Exception as e:  # noqa: B902
            a = {'k': 'raise', 'status': 0, 'reason': '', 'ctype': '', 'xh': [], 'digest': '', 'bytes': True, 'cls': type(e).__name__}
        a['calls'] = self.calls
        a['read'] = conn.taken
        return a

    def direct(self, q, env):
        response = self.dispatcher.dispatch(core.SOAPRequest(env, q.content))
        return answer(response.http_status_code, '', list(response.http_headers.items()), response.http_content)

    def wsgi(self, q, env):
        started = []

        def start_response(status, headers, exc_info=None):
            started.append((status, headers))
        parts = list(self.wsgi_app(env, start_response))
        (status, headers), = started
        body = b''.join(parts) if all(isinstance(p, bytes) for p in parts) else None
        code, _, reason = status.partition(' ')
        return answer(int(code) if reason and isinstance(headers, list) else -1, reason, headers, body)

    def flask(self, q, env):
        with APP.request_context(env):
            response = self.flask_view()
            return answer(response.status_code, '', list(response.headers.items()), response.get_data())

    def django(self, q, env):
        response = self.django_view(WSGIRequest(env))
        headers = list(response.items())
        return answer(response.status_code, '', headers, response.content)


def script(r, g, s):
    """What handlers do, the same for all entries: decided by the request's number."""
    plan = {}

    def handler(o, request, body):
        op = s.ops[o - 1]
        if 'result' not in plan:
            plan['result'], plan['way'], plan['status'] = g.result(s, op), r.randrange(8), r.choice([200, 201, 202, 299, 404, 503])
            plan['op'] = o
        if plan['op'] != o:
            return g.result(s, op)
        way = plan['way']
        if way == 0:
            raise core.SOAPError('Server', 'no')
        if way == 1:
            raise KeyError('key')
        if way == 2:
            return core.SOAPResponse(plan['result'], http_status_code=plan['status'], http_headers={'X-One': 'a, b', 'x-two': '', 'Cache-Control': 'no-cache', 'Content-Type': 'text/plain'})
        if way == 3:
            return core.SOAPResponse(core.SOAPError('Client', 'no'), http_headers={'Content-Language': 'en', 'ETag': '"x"'})
        return plan['result']
    handler.plan = plan
    return handler


def some_http(r, g, s):
    roll = r.random()
    headers = []
    if r.random() < 0.8:
        headers.append(('Host', r.choice(['example.org', 'localhost:8080', 'x&y'])))
    if r.random() < 0.3:
        headers.append(('X-Forwarded-Proto', r.choice(['http', 'https'])))
    if r.random() < 0.2:
        headers.append((r.choice(['Accept', 'Cookie', 'Accept-Encoding', 'User-Agent', 'Expect', 'Origin']), r.choice(['x', '*/*', 'gzip'])))
    scheme = r.choice(['http', 'https'])
    if roll < 0.65:
        content = some_request(r, g, s, mutated=0.1)
        env = content.environ
        doc = content.doc
        if r.random() < 0.1:
            doc = r.choice([b'', b'x', b'\xff', b'<a/>', b'a=b&c=d', b'--x\r\n\r\n--x--'])
        if not env.get('CONTENT_TYPE') and r.random() < 0.5:
            env['CONTENT_TYPE'] = r.choice(['application/x-www-form-urlencoded', 'multipart/form-data; boundary=x', 'text/xml', 'application/json'])
        seen = set()
        for k, v in env.items():
            if k in NAMES and NAMES[k] not in seen and not any(ord(ch) > 126 for ch in v):
                seen.add(NAMES[k])
                name = NAMES[k]
                headers.append((r.choice([name, name.lower(), name.upper()]), v))
        query = r.choice(['', '', 'wsdl', 'x=1', 'xsd=a'])
        doc = doc if isinstance(doc, bytes) else doc.encode()
        if r.random() < 0.1 and b'UTF-16' not in doc[:100] and b'utf-16' not in doc[:100] and not doc.startswith((b'\xff', b'\xfe')):  # much to read
            doc += r.choice([b'<!--%s-->', b'%s<?end?>']) % (b' ' * r.choice([1000, 9000, 70000, 300000]))
        return Http('POST', query, headers, doc, r.choice(['exact'] * 20 + ['short', 'none', 'empty']), scheme)
    query = r.choice(['wsdl', 'singleWsdl', 'wsdl=1', 'xsd=nowhere', 'xsd', '', 'a=b', 'xsd=' + quote(r.choice(s.locations or ['x']))])
    return Http(r.choice(['GET'] * 6 + ['PUT', 'DELETE', 'OPTIONS', 'HEAD']), query, headers, r.choice([b'', b'', b'body']), r.choice(['exact', 'none']), scheme)


def replaced(response):
    response.http_headers['X-Hook'] = 'yes'
    return response


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=k % 4 == 0)
        s = g.service()
        try:
            handler = script(r, g, s)
            kw = {'strict_soap_header': s.strict}
            if r.random() < 0.4:
                kw['middlewares'] = [middlewares.ExceptionToSoapFault()]
            if r.random() < 0.3:
                kw['hooks'] = {n: lambda dispatcher, request, response: replaced(response) for n in ('soap-response', 'wsdl-response', 'xsd-response')
                               if r.random() < 0.6}
            entries = Entries(s, handler, **kw)
            requests, events = [], []
            for n in range(1, 7):
                q = some_http(r, g, s)
                requests.append(q.spec())
                handler.plan.clear()
                order = ['wsgi', 'flask', 'django']
                r.shuffle(order)
                for entry in ['direct', *order]:
                    a = entries.run(entry, q)
                    if entry == 'direct':
                        a['read'] = q.length
                    events.append({'req': n, 'entry': entry, 'a': a})
            cases.append({'service': s.spec(), 'requests': requests, 'events': events})
        finally:
            s.close()
    return cases


def body(check):
    cases = vlib.generate(generate, 'p08', vlib.scale(900, 6000))
    check.sample(cases[0])
    for start in range(0, len(cases), 1000):
        check.validate('EntryTrace', cases[start:start + 1000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P08', body))
