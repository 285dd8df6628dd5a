"""P18: code generated from a schema describes the documents of the schema (spec/CodeTrace.tla over ClassModel.tla)."""
import signal

import fastjinja  # noqa: F401
import vlib
from lxml import etree
from model import NONE, Presenter, parse_tree
from p17 import NO_ELEM, NOTHING
from schemas import FORMS, accepts, all_names, mutate, regular
from simple import call
from soapfish import py2xsd, xsd2py
from xsdgen import Generated, XsdGenerator, document_class, snap_as


class TooLong(Exception):
    """The library did not come to an end."""


def limited(func, seconds=20):
    """func(), ended by an exception if it takes too long."""
    def stop(*args):
        raise TooLong(f'no end within {seconds} s')
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return func()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def event(op, ok, elem=NO_ELEM, tree=NOTHING, obj=NONE, tns='', elems=(), substitutes=(), args=''):
    return {'op': op, 'ok': ok, 'elem': elem, 'tree': tree, 'obj': obj, 'tns': tns, 'elems': list(elems), 'substitutes': list(substitutes),
            'args': args[:6000]}


def substitutes(schema):
    """The elements of substitution groups in the schema document of a schema, and the heads of these."""
    found = []
    for node in py2xsd.generate_xsd(schema).iterchildren('{*}element'):
        head = node.get('substitutionGroup')
        if head is not None:
            prefix, _, name = head.rpartition(':')
            found.append({'n': node.get('name'), 'head': f'{node.nsmap.get(prefix or None)} {name}'})
    return found


def unwrapped(m, el):
    """The library accepts the alternative of a choice as a document of its own."""
    t = m.types[el['type']]
    return t['kind'] == 'complex' and t['ind'] == 'choice' and any(f['tag'] == el['n'] for f in t['fields'])


def observe(r, g, m, events):
    (_, text), = m.documents
    ok, exc, code = call(lambda: limited(lambda: xsd2py.generate_code_from_xsd(text, encoding=r.choice(['utf-8', 'utf-8', None]))))
    if not ok:
        events.append(event('module', False, args=f'{exc} {code} {text.decode("latin-1")}'))
        return
    gen = Generated(code)
    try:
        ok, exc, module = call(gen.load)
        source = (code if isinstance(code, str) else code.decode()) + '\n' + text.decode('latin-1')
        if not ok:
            events.append(event('module', False, args=f'{exc} {module} {source}'))
            return
        schema = next(iter(gen.schemas(m.tns)), None)
        if schema is None:
            events.append(event('module', True, tns='', args=source))
            return
        events.append(event('module', True, tns=schema.targetNamespace, elems=sorted(schema.elements), args=source))
        validator = None
        if not m.grouped:
            ok, exc, validator = call(lambda: py2xsd.schema_validator([schema]))
            events.append(event('schema', ok, substitutes=substitutes(schema) if ok else (), args=f'{exc} {validator} {source}'))
            if not ok:
                return
        original = etree.XMLSchema(etree.fromstring(text)).assertValid
        names = all_names(m)
        for _ in range(10):
            el = r.choice(list(m.elements.values()))
            tree = g.element_tree(m, el, bad=r.choice([0, 0, 0.05]))
            if r.random() < 0.5:
                tree = mutate(r, tree, names, r.choice([1, 1, 2]))
            tree = regular(m, tree, m.elements.get(tree['n'], NO_ELEM))
            doc = Presenter(r, plain=True).document(tree)
            found = m.elements.get(tree['n'], NO_ELEM)
            tree = parse_tree(doc)
            if validator:
                ok, why = accepts(validator, etree.fromstring(doc))
                events.append(event('document', ok, found, tree, args=f'{why}\n{doc!r}{source}'))
            if found is NO_ELEM or found['n'] not in schema.elements or tree['ns'] != m.tns:
                continue
            if not accepts(original, etree.fromstring(doc))[0] or unwrapped(m, found):
                continue
            ok, exc, obj = call(lambda: document_class(schema, found['n']).parsexml(doc).Root)
            e = event('parse', ok, found, tree, args=f'{exc} {doc!r} {source}')
            events.append(e)
            if not ok:
                e['args'] = f'{obj!r} ' + e['args']
                continue
            e['obj'] = snap_as(m, found['type'], obj)
            if e['obj']['t'] == 'obj':
                ok, exc, xml = call(lambda: obj.xml(found['n'], namespace=m.tns, elementFormDefault=FORMS[m.q]))
                events.append(event('render', ok, found, parse_tree(xml) if ok else NOTHING, e['obj'], args=f'{exc} {xml!r} {doc!r} {source}'))
    finally:
        gen.close()


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        while True:
            g = XsdGenerator(r)
            m = g.build_xsd()
            try:
                etree.XMLSchema(etree.fromstring(m.documents[0][1]))
                break
            except etree.XMLSchemaParseError as e:
                if not any(x in str(e) for x in ('not determinist', 'content model is not')):
                    raise vlib.MachineryError(f'{e} {m.documents}') from e
        events = []
        observe(r, g, m, events)
        cases.append({'model': m.spec(), 'elements': list(m.elements.values()), 'substitutes': m.substitutes, 'events': events})
    return cases


def body(check):
    cases = vlib.generate(generate, 'p18', vlib.scale(1000, 12000))
    check.sample(cases[0])
    for start in range(0, len(cases), 4000):
        check.validate('CodeTrace', cases[start:start + 4000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P18', body))
