"""P17: the generated XML Schema accepts exactly what the classes describe (spec/ClassModel.tla Invalid, SchemaTrace.tla)."""
import itertools
import json

import commands
import facets
import schemas
import vlib
from lxml import etree
from model import Presenter, parse_tree
from schemas import SchemaGenerator, accepts, all_names, mutate, regular
from simple import call
from soapfish import py2xsd, xsd

REJECTED = (etree.DocumentInvalid, etree.XMLSyntaxError)

NOTHING = {'ns': '', 'n': '', 'a': [], 'k': [], 'x': []}
NO_ELEM = {'n': '', 'type': '', 'nil': False}


def event(op, ok, elem=NO_ELEM, tree=NOTHING, args=''):
    return {'op': op, 'ok': ok, 'elem': elem, 'tree': tree, 'args': args[:1500]}


def complete(m, o):
    """No required value is missing: what an object may lack although its class requires it."""
    t = type(o).__name__
    fields = m.fields(t)
    elements = [f for f in fields if f['k'] != 'attr']
    if m.types[t]['ind'] == 'choice':
        chosen = [f for f in elements if getattr(o, f['py']) not in (None, [])]
        if len(chosen) != 1 and (chosen or not any(f['min'] == 0 for f in elements)) and elements:
            return False
        elements = chosen
    for f in elements:
        v = getattr(o, f['py'])
        if f['k'] == 'elem' and v is None and f['min']:
            return False
        for x in v if f['k'] == 'list' else [v]:
            if x is None and f['k'] == 'list':
                return False
            if x is xsd.NIL and not m.is_simple(f['type']) and any(a['k'] == 'attr' and a['min'] for a in m.fields(f['type'])):
                return False  # nil has no attributes
            if isinstance(x, xsd.ComplexType) and not complete(m, x):
                return False
    return True


def read_checked(cls, doc, schema):
    """Whether reading a document of the class with its schema gets over the check."""
    ok, exc, got = call(lambda: cls.parsexml(doc, schema=schema))  # accepted also if a value can not be represented
    return not isinstance(got, REJECTED), 'read' if ok else f'read: {got!r}'


def checked(r, g, m, schema):
    """What the classes themselves refuse to read or to render when they are given a schema."""
    events = []
    el = r.choice(list(m.elements.values()))
    if m.is_simple(el['type']):
        return events
    cls = m.classes[el['type']]
    for _ in range(3):
        tree = g.element_tree(m, el, bad=r.choice([0, 0, 0.05, 0.3]))
        if r.random() < 0.5:
            tree = mutate(r, tree, all_names(m), r.choice([1, 1, 2]))
        tree = regular(m, tree, m.elements.get(tree['n'], NO_ELEM))
        if tree['n'] != el['n']:
            continue  # not a document of the class
        doc = Presenter(r, plain=True).document(tree)
        ok, why = read_checked(cls, doc, schema if r.random() < 0.7 else m.schema)
        events.append(event('document', ok, el, parse_tree(doc), f'{why}\n{doc!r}'))
    o = g.obj(m, el['type'], complete=r.choice([0, 0.5, 1]))
    form = {'namespace': m.tns, 'elementFormDefault': schemas.FORMS[m.q]}
    ok, exc, xml = call(lambda: o.xml(el['n'], **form))
    if ok:
        ok, exc, got = call(lambda: o.xml(el['n'], schema=schema, **form))
        if ok or isinstance(got, REJECTED):
            events.append(event('document', ok, el, parse_tree(xml), f'rendered: {"" if ok else got}\n{xml!r}'))
            events.append(event('same', not ok or got == xml, el, NOTHING))
        else:
            events.append(event('same', False, el, NOTHING, f'{got!r}'))
    return events


def documents(r, g, m, validator, text):
    events = []
    names = all_names(m)
    for _ in range(12):
        el = r.choice(list(m.elements.values()))
        tree = g.element_tree(m, el, bad=r.choice([0, 0, 0.05, 0.3]))
        if r.random() < 0.65:
            tree = mutate(r, tree, names, r.choice([1, 1, 2, 3]))
        tree = regular(m, tree, m.elements.get(tree['n'], NO_ELEM))
        doc = Presenter(r, plain=True).document(tree)
        found = m.elements.get(tree['n'], NO_ELEM)
        ok, why = accepts(validator, etree.fromstring(doc))
        events.append(event('document', ok, found, parse_tree(doc), f'{why}\n{doc!r}{text}'))
    for _ in range(3):
        el = r.choice(list(m.elements.values()))
        if m.is_simple(el['type']):
            continue
        o = g.obj(m, el['type'], complete=1)
        if not complete(m, o):
            continue
        ok, exc, xml = call(lambda: o.xml(el['n'], schema=m.schema) if r.random() < 0.5 else
                            o.xml(el['n'], namespace=m.tns, elementFormDefault=schemas.FORMS[m.q]))
        if ok:
            ok, why = accepts(validator, etree.fromstring(xml))
            events.append(event('rendered', ok, el, parse_tree(xml), f'{why}\n{xml!r}{text}'))
    return events


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = SchemaGenerator(r, recursion=k % 3 == 0)
        models = [g.build(includes=k % 2, label='other-')] if k % 4 == 0 else []
        together = r.random() < 0.4  # both schemas are given, whether or not one imports the other
        imported = tuple(x.schema for x in models) if not together or r.random() < 0.5 else ()
        models.append(g.build(includes=k % 2, imports=imported))
        if len(models) == 2 and models[0].tns == models[1].tns:
            models = [models[0]]  # both would be one namespace
        together = together and len(models) == 2
        roots = [x.schema for x in models] if together else [models[-1].schema]
        r.shuffle(roots)
        try:
            text = etree.tostring(py2xsd.generate_xsd(models[-1].schema), encoding='unicode')
            if together or r.random() < 0.7 or models[-1].schema.imports or models[-1].schema.includes:
                ok, exc, validator = call(lambda: py2xsd.schema_validator(roots))
            else:
                ok, exc, validator = call(lambda: etree.XMLSchema(etree.fromstring(
                    commands.document(py2xsd.main, 'Schema', models[-1].schema, r.random() < 0.3))).assertValid)
            for m in models:
                events = [event('schema', ok, args=(exc and f'{exc} {validator} ') + text)]
                if ok:
                    events += documents(r, g, m, validator, text)
                    if r.random() < 0.5 and hasattr(py2xsd, 'build_xml_schema'):
                        events += checked(r, g, m, py2xsd.build_xml_schema(roots))
                cases.append({'model': m.spec(), 'events': events})
        finally:
            for m in models:
                m.close()
    return cases


def replay_content(reports, max_kids):
    """What the schemas of the classes accept among all documents; the differences to what TLC reported."""
    wrong, count = [], 0
    for rep in reports:
        attrs = {'INDICATOR': {'sequence': xsd.Sequence, 'choice': xsd.Choice, 'all': xsd.All}[rep['ind']]}
        for f in rep['fields']:
            if f['k'] == 'attr':
                attrs[f['py']] = xsd.Attribute(xsd.String, use=xsd.Use.REQUIRED if f['min'] else xsd.Use.OPTIONAL)
            elif f['k'] == 'list':
                attrs[f['py']] = xsd.ListElement(xsd.String, f['tag'], minOccurs=f['min'], nillable=f['nil'],
                                                 maxOccurs=xsd.UNBOUNDED if f['max'] == -1 else f['max'])
            else:
                attrs[f['py']] = xsd.Element(xsd.String, minOccurs=f['min'], nillable=f['nil'])
        cls = type('C', (xsd.ComplexType,), attrs)
        schema = xsd.Schema('urn:t', elementFormDefault=schemas.FORMS[rep['q']], complexTypes=[cls], elements={'root': xsd.Element(cls)})
        ok, exc, validator = call(lambda: py2xsd.schema_validator([schema]))
        if not ok:
            wrong.append(('no valid schema is generated', rep, repr(validator)))
            continue
        expected = {(tuple(d['a']), tuple(d['k'])) for d in rep['ok']}
        prefix = 't:' if rep['q'] else ''
        names = [f['tag'] for f in rep['fields']] + ['z']
        attr_names = [f['tag'] for f in rep['fields'] if f['k'] == 'attr'] + ['z']
        kids = [n + x for n in names for x in ('', 'n')]
        for n in range(max_kids + 1):
            for word in itertools.product(kids, repeat=n):
                content = ''.join('<%s%s%s/>' % (prefix, w[0], ' i:nil="1"' if w[1:] else '') for w in word)
                for present in itertools.product((0, 1), repeat=len(attr_names)):
                    a = tuple(sorted(x for x, on in zip(attr_names, present) if on))
                    doc = '<t:root xmlns:t="urn:t" xmlns:i="http://www.w3.org/2001/XMLSchema-instance" %s>%s</t:root>' % (
                        ' '.join(f'{x}="x"' for x in a), content)
                    count += 1
                    accepted, why = accepts(validator, etree.fromstring(doc))
                    if accepted != ((a, word) in expected):
                        wrong.append(('accepted although the classes do not describe it' if accepted else
                                      'a document the classes describe is not accepted', doc,
                                      why + etree.tostring(py2xsd.generate_xsd(schema)).decode()))
    return wrong[:20], count


def content_space(check):
    """Exhaustive: all classes with up to two fields, all documents with up to max_kids elements."""
    max_kids = vlib.scale(3, 4)
    reports = check.explore('ContentSpace', f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Reported\n'
                            f'CONSTANTS MaxKids = {max_kids} MaxFields = {vlib.scale(2, 2)}\n', timeout=3000)
    reports.sort(key=lambda d: json.dumps(d, sort_keys=True))
    parts = 28
    total = 0
    for wrong, count in vlib.parallel(replay_content, [(reports[k::parts], max_kids) for k in range(parts)]):
        total += count
        for what, doc, why in wrong:
            check.violation(f'ContentSpace: {what}', {'document': doc, 'why': why})
    check.replayed(total, 'ContentSpace')


def body(check):
    content_space(check)
    facets.replay(check, facets.describing, facets.explore(check))
    cases = vlib.generate(generate, 'p17', vlib.scale(1500, 20000))
    check.sample(cases[0])
    for start in range(0, len(cases), 5000):
        check.validate('SchemaTrace', cases[start:start + 5000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P17', body))
