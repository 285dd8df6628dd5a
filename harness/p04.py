"""P04: middlewares wrap every SOAP call as an onion (spec/DispatchSpace.tla, Dispatch.tla, DispatchTrace.tla)."""
import p01
import p03
import passing
import vlib
from dispatching import EXCEPTIONS, Content, Harness, ServiceGenerator, action_headers
from p01 import present
from schemas import all_names, mutate
from soapfish import core


class Actions:
    """Random middlewares; each call makes up its mind anew."""

    def __init__(self, r, g, s):
        self.r, self.g, self.s = r, g, s
        self.h = None

    def result(self):
        r, g, s = self.r, self.g, self.s
        o = g.result(s, r.choice(s.ops))
        roll = r.random()
        if roll < 0.4:
            return o
        if roll < 0.5:
            return core.SOAPError(r.choice(p03.CODES), r.choice(p03.MESSAGES))
        status, headers = r.choice([200, 200, 202, 299]), r.choice([None, None, {'X-A': '1'}, {'X-A': '2', 'X-B': ''}, {'Content-Type': 'x/y'}])
        if roll < 0.6:
            return core.SOAPResponse(core.SOAPError(s.service.version.Code.SERVER, 'x'), http_status_code=status, http_headers=headers)
        if roll < 0.65:
            return None if r.random() < 0.5 else core.SOAPResponse(None)
        return core.SOAPResponse(o, http_status_code=status, http_headers=headers)

    def error(self):
        e = p03.failure(self.r)
        if isinstance(e, core.SOAPError) and e.code is None:
            e.code = self.s.service.version.Code.SERVER
        return e

    def replacement(self, request):
        rec = self.h.rec
        new = rec.add_request(some_request(self.r, self.g, self.s))
        new.dispatcher = request.dispatcher
        return new

    def script(self, weights):
        r = self.r

        def run(request, call_on):
            way = r.choices(['pass', 'short', 'fail', 'after', 'catch', 'twice', 'replace', 'header'], weights)[0]
            if way == 'short':
                return self.result()
            if way == 'fail':
                raise self.error()
            if way == 'replace':
                return call_on(self.replacement(request))
            if way == 'catch':
                try:
                    return call_on(request)
                except Exception:
                    return self.result()
            if way == 'twice':
                try:
                    first = call_on(request)
                except Exception:
                    if r.random() < 0.3:
                        raise
                else:
                    if r.random() < 0.5:
                        call_on(request)
                        return first
                return call_on(request if r.random() < 0.5 else self.replacement(request))
            result = call_on(request)
            if way == 'after':
                if r.random() < 0.4:
                    raise self.error()
                return self.result()
            if way == 'header' and isinstance(result, core.SOAPResponse):
                result.http_headers['X-Seen'] = 'yes'
                result.http_status_code = r.choice([200, 201, 500])
            return result
        return run


def some_request(r, g, s):
    op = r.choice(s.ops)
    tree = g.body_tree(s, op.input)
    if r.random() < 0.15:
        tree = mutate(r, tree, all_names(s.m), 1)
    env = {'REQUEST_METHOD': 'POST', **action_headers(r, s, op.action or None)}
    if r.random() < 0.03:
        return Content(env, b'<x', 'no')
    return Content(env, present(r, s.envelope(None, tree)))


def document_request(r, s):
    method, query = r.choice([('GET', [('wsdl', '')]), ('GET', [('singleWsdl', '')]), ('GET', [('xsd', 'none.xsd')]), ('GET', []), ('PUT', []),
                              ('HEAD', [('wsdl', '')])])
    env = {'REQUEST_METHOD': method, 'QUERY_STRING': '&'.join(f'{k}={v}' if v else k for k, v in query)}
    return Content(env, b'', 'no', query=query)


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=False, top=1, facets=False)
        s = g.service(headers=0, imports=0, ops=r.choice([1, 2]))
        try:
            a = Actions(r, g, s)
            mws = []
            for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6])):
                kind = r.choice(['script', 'script', 'script', 'e2f', 'log', 'log'])
                if kind == 'log':
                    mws.append(('log', tuple(r.sample(list(EXCEPTIONS), r.choice([0, 1, 1, 2, 3]))), r.random() < 0.5, None))
                elif kind == 'e2f':
                    mws.append(('e2f', (), r.random() < 0.3, None))
                else:
                    mws.append(('script', (), False, a.script([r.choice([3, 10]), 1, 1, 1, 1, 1, 1, 1])))
            h = a.h = Harness(s, mws, shared=r.random() < 0.15)
            plain = p01.answer(r, g, s)

            def handler(o, request, body):
                if r.random() < 0.3:
                    raise a.error()
                return plain(o, request, body)
            h.handler = handler
            for n in range(1, 9):
                h.dispatch(document_request(r, s) if r.random() < 0.1 else some_request(r, g, s), n)
            cases.append(h.case(8))
        finally:
            s.close()
    return cases


def body(check):
    passing.check_space(check, 'stacks', MaxMws=3, Scripts=passing.SCRIPTS,
                        Ends=vlib.scale(['ok', 'soap', 'soap!', 'exc!', 'odd!'], ['ok', 'soap!', 'exc!', 'odd!']),
                        Kinds=['soap', 'invalid', 'wsdl'], RequestWays=['none'], ResponseWays=['none'], Others=['no'])
    cases = vlib.generate(generate, 'p04', vlib.scale(900, 10000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P04', body))
