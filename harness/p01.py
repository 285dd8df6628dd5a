"""P01: handlers run for valid requests only, once, with the values sent (spec/Dispatch.tla, DispatchTrace.tla)."""
import vlib
from dispatching import Content, Harness, ServiceGenerator, action_headers
from model import Presenter
from schemas import all_names, mutate
from soapfish import core


def present(r, tree):
    p = Presenter(r)
    p.allow_entities = False
    return p.document(tree)


def some_request(r, g, s, bad=0.3, mutated=0.4, header_bad=0.02, **kw):
    op = r.choice(s.ops)
    el = op.input
    if r.random() < 0.15:
        el = r.choice(s.elements)
    elif r.random() < 0.2:
        el = r.choice([e for e in s.elements if e['subst'] == op.input['n']] or [el])
    tree = g.body_tree(s, el, bad=r.choice([0, 0, bad * 0.15]))
    if r.random() < mutated:
        names = all_names(s.m) + [e['n'] for e in s.elements]
        tree = mutate(r, tree, names, r.choice([1, 1, 2]))
    header = g.header_tree(s, op, bad=header_bad) if r.random() < 0.4 else None
    action = op.action if op.action and r.random() < 0.5 else None
    env = {'REQUEST_METHOD': 'POST', **action_headers(r, s, action)}
    doc = present(r, s.envelope(header, tree))
    return Content(env, doc)


def answer(r, g, s):
    """A handler which answers with a random object of the output class."""
    def handler(o, request, body):
        result = g.result(s, s.ops[o - 1])
        if r.random() < 0.5:
            return result
        hdr = None
        name = s.ops[o - 1].outh or s.outh
        if g.header_renders(s, name) and r.random() < 0.6:
            hdr = g.header_object(s, name)
        return core.SOAPResponse(result, soap_header=hdr)
    return handler


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=k % 3 == 0)
        s = g.service()
        try:
            h = Harness(s)
            h.handler = answer(r, g, s)
            for n in range(1, 7):
                h.dispatch(some_request(r, g, s), n)
            cases.append(h.case(6))
        finally:
            s.close()
    return cases


def body(check):
    cases = vlib.generate(generate, 'p01', vlib.scale(1200, 12000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P01', body))
