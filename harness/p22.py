"""P22: headers are checked, read and answered as declared (spec/Dispatch.tla, DispatchTrace.tla)."""
import dispatching
import vlib
from dispatching import ENV, Content, Harness, ServiceGenerator, action_headers, qn
from model import NONE, snap
from p01 import present
from simple import cps
from soapfish import core, wsa


def some_request(r, g, s):
    op = r.choice(s.ops)
    tree = g.body_tree(s, op.input, bad=r.choice([0, 0, 0, 0.02]))
    roll = r.random()
    if roll < 0.1:
        header = None
    elif roll < 0.15:
        header = qn('Header', ENV[s.version])
    else:
        # The blocks may be those of another operation, which has another class.
        header = g.header_tree(s, r.choice(s.ops) if r.random() < 0.15 else op, bad=r.choice([0, 0, 0.1, 0.3]),
                               foreign=r.choice([0, 0.15]), wsa_share=r.choice([0.1, 0.5]))
    env = {'REQUEST_METHOD': 'POST', **action_headers(r, s, op.action or None)}
    return Content(env, present(r, s.envelope(header, tree)))


def some_header(r, g, s):
    names = [n for n in s.header_names if n]
    return g.header_object(s, r.choice(names)) if names else None


def fill(r, g, h, hdr, src):
    """Fill a WS-Addressing header as the answer to that of a request, as handlers do."""
    if type(src) is not wsa.Header or src.Action is None or src.MessageID is None or r.random() < 0.2:
        src = g.header_object(h.s, 'Header') if r.random() < 0.7 else None
    h.seen = getattr(h, 'seen', [])
    event = {'before': snap(h.s, hdr), 'src': NONE if src is None else snap(h.s, src), 'seen': list(h.seen)}
    if src is not None:
        event['seen'].append(event['src']['f']['MessageID']['s'])
    try:
        wsa.fill_header(hdr, src) if src is not None or r.random() < 0.5 else wsa.fill_header(hdr)
        ok = True
    except Exception:  # noqa: B902
        ok = False
    event['dst'], event['after'] = snap(h.s, hdr), NONE if src is None else snap(h.s, src)
    h.rec.emit('fill', ok=ok, **event)
    if isinstance(hdr.MessageID, str):
        h.seen.append(cps(hdr.MessageID))


def answer(r, g, s, h):
    def handler(o, request, body):
        op = s.ops[o - 1]
        name = op.outh or s.outh
        hdr = g.header_object(s, name) if name and r.random() < 0.7 else some_header(r, g, s) if r.random() < 0.3 else None
        if type(hdr) is wsa.Header and r.random() < 0.5:
            hdr = hdr if r.random() < 0.5 else wsa.Header(Action='urn:b')
            fill(r, g, h, hdr, request.soap_header)
        if r.random() < 0.3:
            error = core.SOAPError(r.choice(['Server', 'Client', 'ns0:Receiver']), 'no ' + r.choice('abc'))
            if r.random() < 0.3:
                raise error
            return core.SOAPResponse(error, soap_header=hdr)
        return core.SOAPResponse(g.result(s, op), soap_header=hdr)
    return handler


def sets_header(r, g, s):
    """A middleware which sets the header of the response which passes it, or answers itself."""
    def script(request, call_on):
        if r.random() < 0.1:
            return core.SOAPResponse(g.result(s, r.choice(s.ops)), soap_header=some_header(r, g, s))
        response = call_on(request)
        if isinstance(response, core.SOAPResponse) and r.random() < 0.5:
            response.soap_header = some_header(r, g, s) if r.random() < 0.8 else None
        return response
    return script


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=k % 5 == 0)
        s = g.service(headers=1, wsa=0.25, imports=0.1, ops=r.choice([1, 2, 3]), strict=r.choice([True, False]), header_ns=r.random() < 0.7)
        s.header_names = {op.outh for op in s.ops} | {op.inh for op in s.ops} | {s.inh, s.outh} | set(s.m.header_classes)
        try:
            mws = [('script', (), False, sets_header(r, g, s))] if r.random() < 0.4 else []
            h = Harness(s, mws)
            h.handler = answer(r, g, s, h)
            for n in range(1, 9):
                h.dispatch(some_request(r, g, s), n)
            cases.append(h.case(8))
        finally:
            s.close()
    return cases


def known(case, report):
    return 'header-namespace' if report['bad'] == [dispatching.KNOWN_HEADER] else None


def body(check):
    cases = vlib.generate(generate, 'p22', vlib.scale(1500, 12000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], key=known, timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P22', body))
