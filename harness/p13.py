"""P13: rendering an object mirrors its declaration exactly (spec/ClassModel.tla Mirror, spec/ModelTrace.tla)."""
import model
import vlib
from model import Generator, Options, parse_tree, snap
from simple import call
from soapfish import xsd

NOTHING = {'ns': '', 'n': '', 'a': [], 'k': [], 'x': []}
FORMS = {True: xsd.ElementFormDefault.QUALIFIED, False: xsd.ElementFormDefault.UNQUALIFIED}


def render_event(m, o, tag, q):
    e = {'op': 'render', 'tag': tag, 'ns': m.tns, 'ctx': m.tns, 'q': q, 'obj': snap(m, o), 'ok': False, 'exc': '', 'tree': NOTHING, 'args': ''}
    ok, e['exc'], xml = call(lambda: o.xml(tag, namespace=m.tns, elementFormDefault=FORMS[q]))
    if ok:
        e['ok'], e['tree'], e['args'] = True, parse_tree(xml), xml.decode()[:500]
    return e


def document_event(r, m, name):
    """A Document: its only field is the root element."""
    cls = type('Doc', (xsd.Document,), {'NAMESPACE': m.tns, 'Root': xsd.Element(m.classes[name])})
    o = Generator(r, Options()).obj(m, name)
    e = {'op': 'render', 'tag': 'Root', 'ns': '', 'ctx': m.tns, 'q': False, 'obj': snap(m, o), 'ok': False, 'exc': '', 'tree': NOTHING, 'args': 'document'}
    ok, e['exc'], xml = call(lambda: cls(Root=o).render())
    if ok:
        e['ok'], e['tree'] = True, parse_tree(xml)
    return e


def body(check):
    r = vlib.rng('p13')
    cases = []
    for k in range(vlib.scale(2500, 25000)):
        g = Generator(r, Options(grefs=k % 3 == 1, schemas=k % 2, override=k % 3 == 0, field_ns=k % 4 != 0, defaults=k % 5 == 0))
        m = g.build()
        try:
            events = []
            for _ in range(4):
                name = r.choice(m.complex)
                o = g.obj(m, name, complete=r.choice([1, 1, 0.8, 0.5]))
                events.append(render_event(m, o, r.choice(['root', 'my-root', 'R']), r.random() < 0.6))
            events.append(document_event(r, m, r.choice(m.complex)))
            cases.append({'model': m.spec(), 'events': events})
        finally:
            m.close()
    check.sample(cases[0])
    for start in range(0, len(cases), 5000):
        check.validate('ModelTrace', cases[start:start + 5000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P13', body))
