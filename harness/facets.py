"""Replay of spec/FacetSpace.tla: every restricted type and every candidate for its values."""
import decimal

from lxml import etree

import simple
import vlib
from simple import TypeDef, call, uncp
from soapfish import py2xsd, xsd


def explore(check):
    reports = check.explore('FacetSpace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Reported\nPROPERTY Narrowing\n'
                            f'CONSTANT MaxFacets = {vlib.scale(3, 4)}\n', timeout=2500)
    if len(reports) < 1500:
        raise vlib.MachineryError('the exploration is incomplete')
    return reports


def typedef(rep):
    spec = dict(rep['facets'] or {})
    number = rep['type'] != 'string'
    facets = {}
    for name, v in spec.items():
        if name == 'pattern':
            facets[name] = simple.regex_text(v)
        elif name == 'enumeration':
            facets[name] = [literal(rep['type'], x) if number else uncp(x) for x in v]
        elif name.endswith('clusive'):
            facets[name] = literal(rep['type'], v)
        else:
            facets[name] = v
    return TypeDef(rep['type'], facets, spec)


def literal(base, codes):
    return int(uncp(codes)) if base == 'integer' else decimal.Decimal(uncp(codes))


def entries(field_type):
    """The ways a value gets into an object; everything else is left as it was."""
    cls = type('Holder', (xsd.ComplexType,), {
        'a': xsd.Element(field_type, minOccurs=0), 'b': xsd.ListElement(field_type, 'b'),
        'c': xsd.Attribute(field_type, use=xsd.Use.OPTIONAL)})

    def assign(v):
        o = cls()
        o.a = v
        return o.a

    def append(v):
        o = cls()
        o.b.append(v)
        return o.b[0]

    def attribute(v):
        return cls(c=v).c

    def element(v):
        root = etree.Element('holder')
        etree.SubElement(root, 'a').text = v
        return cls.parsexml(etree.tostring(root)).a

    def attribute_text(v):
        root = etree.Element('holder')
        root.set('c', v)
        return cls.parsexml(etree.tostring(root)).c

    return [assign, append, attribute, element, attribute_text]


def accepting(reports):
    """P10: what fields of the types accept, differences to the specification."""
    wrong, count = [], 0
    for k, rep in reports:
        t = typedef(rep)
        ok, _, field_type = call(lambda: t.instance(None, ['args', 'class', 'split', 'sub'][k % 4]))
        ways = entries(field_type) if ok else []
        if not ok:
            wrong.append(('the type can not be declared', rep, repr(field_type)))
        for want, words in ((True, rep['yes']), (False, rep['no'])):
            for n, codes in enumerate(words):
                text = uncp(codes)
                unsigned = text.lstrip('-')
                if rep['type'] != 'string' and 'pattern' in t.spec and unsigned[:1] == '0':
                    continue  # the pattern may be matched against the number written in another way
                for w, way in enumerate(ways):
                    if w not in {k % 5, (k + n) % 5}:
                        continue
                    if w >= 3 and (set(text) & set('\t\n\r') and w == 4):
                        continue  # attributes are normalised by the parser
                    values = [text]
                    if rep['type'] != 'string' and w < 3 and 'fractionDigits' not in t.spec and ('.' not in text or rep['type'] == 'decimal'):
                        values.append(literal(rep['type'], codes))
                    for v in values:
                        count += 1
                        ok, exc, got = call(way, v)
                        if ok != want or (not ok and exc != 'ValueError'):
                            wrong.append((f'{"accepted" if ok else "refused (" + exc + ")"} by {way.__name__} although the facets say otherwise',
                                          {'type': t.base, 'facets': repr(t.facets), 'value': repr(v)}, repr(got)))
    return wrong[:20], count


def together(t):
    """The facets may stand together in a schema."""
    s = t.spec
    return not ('length' in s and ('minLength' in s or 'maxLength' in s)) and s.get('minLength', 0) <= s.get('maxLength', 9) \
        and 'fractionDigits' not in s


def describing(reports):
    """P17: what the schemas generated for classes with the types accept, differences to the specification."""
    from schemas import accepts, consistent, literals
    wrong, count = [], 0
    chunk = 40
    reports = [(rep, typedef(rep)) for _, rep in reports]
    reports = [(rep, t) for rep, t in reports if together(t) and consistent(t)]
    for start in range(0, len(reports), chunk):
        part = reports[start:start + chunk]
        # Types without a name, with a name, and types derived from types with a name.
        passed, listed = [], []
        for n, (_, t) in enumerate(part):
            items = list(t.facets.items())
            cut = len(items) // 2
            if n % 3 == 0:
                passed.append(t.instance(None, 'args'))
                continue
            cls = simple.BUILTIN[t.base]
            if n % 3 == 2:
                cls = type(f'B{n}Type', (cls,), dict(items[:cut]))
                if not all(call(cls().accept, v)[0] for v in literals(t)):
                    cls = simple.BUILTIN[t.base]  # no restriction of that type
                    cut = 0
                else:
                    listed.append(cls)
            cls = type(f'T{n}Type', (cls,), dict(items[cut:] if n % 3 == 2 else items))
            listed.append(cls)
            passed.append(cls if n % 2 else cls())
        fields = {f'f{n}': xsd.Element(p, minOccurs=0) for n, p in enumerate(passed)}
        cls = type('C', (xsd.ComplexType,), fields)
        schema = xsd.Schema('urn:t', elementFormDefault='unqualified', simpleTypes=listed,
                            complexTypes=[cls], elements={'root': xsd.Element(cls)})
        ok, exc, validator = call(lambda: py2xsd.schema_validator([schema]))
        if not ok:
            wrong.append(('no valid schema is generated', [repr(t.facets) for _, t in part], repr(validator)))
            continue
        for n, (rep, t) in enumerate(part):
            for want, words in ((True, rep['yes']), (False, rep['no'])):
                for codes in words:
                    root = etree.Element('{urn:t}root')
                    etree.SubElement(root, f'f{n}').text = uncp(codes)
                    count += 1
                    ok, why = accepts(validator, root)
                    if ok != want:
                        wrong.append(('accepted although the facets refuse it' if ok else 'a document the classes describe is not accepted',
                                      {'type': t.base, 'facets': repr(t.facets), 'text': uncp(codes)}, why))
    return wrong[:20], count


def replay(check, judge, reports):
    parts = 16
    numbered = list(enumerate(reports))
    total = 0
    for wrong, count in vlib.parallel(judge, [(numbered[k::parts],) for k in range(parts)]):
        total += count
        for what, case, why in wrong:
            check.violation(f'FacetSpace: {what} {case}'[:300], {'case': case, 'why': why})
    check.replayed(total, 'FacetSpace')
