"""P14: parsing recovers the value whatever the presentation of the XML (spec/ClassModel.tla Recovered, ModelTrace.tla)."""
import model
import vlib
from model import NONE, Generator, Options, Presenter, snap
from p13 import FORMS
from simple import call
from soapfish import xsd


def parse_event(m, name, tree, doc, parse):
    e = {'op': 'parse', 'type': name, 'tree': tree, 'ok': False, 'exc': '', 'obj': NONE, 'args': repr(doc)[:600]}
    ok, e['exc'], o = call(parse)
    if not ok:
        e['args'] = repr(o)[:300] + e['args']
    if ok:
        e['ok'], e['obj'] = True, snap(m, o)
    return e


def round_event(m, o, q, pretty):
    cls = type(o)
    e = {'op': 'round', 'obj': snap(m, o), 'ok': False, 'exc': '', 'back': NONE, 'args': ''}
    ok, _, xml = call(lambda: o.xml('root', namespace=m.tns, elementFormDefault=FORMS[q], pretty_print=pretty))
    if not ok:
        return None
    e['args'] = repr(xml)[:600]
    ok, e['exc'], back = call(lambda: cls.parsexml(xml))
    if ok:
        e['ok'], e['back'] = True, snap(m, back)
    return e


def plain(m):
    """Rendering and parsing are inverse only for what XML can express: an absent element is at its default."""
    return not any(f['def'] != NONE and f['k'] != 'gref' for t in m.types.values() if t['kind'] == 'complex' for f in t['fields'])


def all_refs_set(m, o):
    for f in m.fields(type(o).__name__):
        v = getattr(o, f['py'])
        if f['k'] in ('ref', 'gref') and v is None:
            return False
        for x in v if f['k'] == 'list' else [v]:
            if isinstance(x, xsd.ComplexType) and not all_refs_set(m, x):
                return False
    return True


def body(check):
    r = vlib.rng('p14')
    cases = []
    for k in range(vlib.scale(2200, 25000)):
        g = Generator(r, Options(grefs=k % 3 == 1, schemas=k % 2, override=k % 3 == 0, field_ns=k % 4 == 0, defaults=k % 5 == 0))
        m = g.build()
        try:
            events = []
            for j in range(3):
                name = r.choice(m.complex)
                tree = g.tree(m, name, 'root', m.tns, bad=r.choice([0, 0, 0, 0, 0.03]))
                for _ in range(2):
                    doc = Presenter(r).document(tree)
                    events.append(parse_event(m, name, tree, doc, lambda: m.classes[name].parsexml(doc)))
            dcls = type('Doc', (xsd.Document,), {'NAMESPACE': m.tns, 'Root': xsd.Element(m.classes[name], tagname='root')})
            events.append(parse_event(m, name, tree, doc, lambda: dcls.parsexml(doc).Root))
            for j in range(2):
                o = g.obj(m, r.choice(m.complex), complete=r.choice([1, 0.9]))
                if plain(m) and all_refs_set(m, o):
                    e = round_event(m, o, r.random() < 0.5, r.random() < 0.5)
                    if e:
                        events.append(e)
            cases.append({'model': m.spec(), 'events': events})
        finally:
            m.close()
    check.sample(cases[0])
    for start in range(0, len(cases), 5000):
        check.validate('ModelTrace', cases[start:start + 5000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P14', body))
