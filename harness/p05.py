"""P05: hooks run once at their point and replace the object (spec/DispatchSpace.tla, Dispatch.tla, DispatchTrace.tla)."""
import p01
import p04
import passing
import vlib
from dispatching import Content, Harness, ServiceGenerator
from soapfish import core, soap_dispatch

NAMES = [f'{k}-{p}' for k in ('soap', 'wsdl', 'xsd') for p in ('request', 'response')]
OTHER_NAMES = ['', 'soap', 'request', 'soap_request', 'soap-requests', 'xsoap-request', 'SOAP-request', 'wsdl-', '-request', 'soap-response\n',
               'soap-request ', ' soap-request', 'html-request', 'soap-request-response', 'wsdl-result', 'xsd-Response', 'soapxrequest']


def some_request(r, g, s):
    if r.random() < 0.5:
        return p04.some_request(r, g, s)
    locations = [*s.locations, 'none.xsd', '']
    at = r.choice(locations)
    method, query = r.choice([
        ('GET', [('wsdl', '')]), ('GET', [('singleWsdl', '1')]), ('GET', [('xsd', at)]), ('GET', [('xsd', at)]), ('GET', [('xsd', at), ('wsdl', '')]),
        ('GET', []), ('GET', [('Wsdl', '')]), ('PUT', [('wsdl', '')]), ('HEAD', [('wsdl', '')]), ('', [('xsd', at)]), ('GET', [('x', 'wsdl')]),
    ])
    env = {'REQUEST_METHOD': method, 'QUERY_STRING': '&'.join(f'{k}={v}' if v else k for k, v in query)}
    if r.random() < 0.5:
        env.update({'HTTP_HOST': r.choice(['a.example', 'b.example:80']), 'wsgi.url_scheme': r.choice(['http', 'https'])})
    return Content(env, b'', 'no', query=query)


def same_kind(r, g, s, kind):
    while True:
        c = some_request(r, g, s)
        method, names = c.environ['REQUEST_METHOD'], {k for k, v in c.query}
        got = 'soap' if method == 'POST' else 'bad' if method != 'GET' else 'wsdl' if names & {'wsdl', 'singleWsdl'} else 'xsd' if 'xsd' in names else 'bad'
        if got == kind:
            return c


WRONG = [None, b'x', 'x', 42, object]


def request_hook(r, g, s, h, kind):
    def hook(request):
        way = r.random()
        if way < 0.45:
            return request
        if way < 0.85:
            return h[0].rec.add_request(same_kind(r, g, s, kind))
        return r.choice([*WRONG, core.SOAPResponse('x'), request.environ])
    return hook


def response_hook(r):
    def hook(response):
        way = r.random()
        if way < 0.3:
            return response
        if way < 0.5:
            response.http_headers['X-Hook'] = 'yes'
            response.http_status_code = r.choice([200, 299, 500])
            return response
        if way < 0.65:
            response.http_content = b'<changed/>'
            return response
        if way < 0.85:
            return core.SOAPResponse('new', http_content=b'<new/>', http_status_code=201, http_headers={'Content-Type': 'text/x', 'X-B': '1'})
        return r.choice([*WRONG, response.http_content, core.SOAPRequest({}, b'')])
    return hook


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=False, top=1, facets=False)
        s = g.service(headers=0, imports=0.6, ops=r.choice([1, 2]))
        try:
            a = p04.Actions(r, g, s)
            mws = []
            for _ in range(r.choice([0, 0, 1, 2])):
                mws.append(r.choice([('e2f', (), False, None), ('script', (), False, a.script([3, 1, 1, 1, 1, 1, 1, 1]))]))
            box = []
            share = r.choice([0.3, 0.7, 1])
            names = [n for n in NAMES if r.random() < share]
            hooks = {n: request_hook(r, g, s, box, n.split('-')[0]) if n.endswith('request') else response_hook(r) for n in names}
            h = a.h = Harness(s, mws, hooks)
            box.append(h)
            plain = p01.answer(r, g, s)

            def handler(o, request, body):
                if r.random() < 0.2:
                    raise a.error()
                return plain(o, request, body)
            h.handler = handler
            for n in range(1, 9):
                h.dispatch(some_request(r, g, s), n)
            for _ in range(2):
                chosen = [n for n in NAMES if r.random() < 0.3] + [n for n in OTHER_NAMES if r.random() < 0.04]
                r.shuffle(chosen)
                raised = ''
                try:
                    soap_dispatch.SOAPDispatcher(s.service, hooks={n: hooks.get(n) for n in chosen})
                except Exception as e:  # noqa: B902
                    raised = type(e).__name__
                h.rec.emit('names', names=chosen, raised=raised)
            cases.append(h.case(8))
        finally:
            s.close()
    return cases


def body(check):
    passing.check_space(check, 'hooks', MaxMws=1, Scripts=vlib.scale(['pass', 'short', 'raiseE', 'replace'], passing.SCRIPTS),
                        Ends=['ok', 'soap!', 'exc!'], Kinds=list(passing.HOOK_KINDS), RequestWays=['none', 'same', 'other', 'wrong'],
                        ResponseWays=['none', 'same', 'other', 'wrong'], Others=['no', 'yes'])
    cases = vlib.generate(generate, 'p05', vlib.scale(1200, 12000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P05', body))
