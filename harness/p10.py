"""P10: facets are enforced on every value that enters an object, and only facets (spec/FacetTrace.tla)."""
import decimal

from lxml import etree

import facets
import simple
import vlib
from simple import call, cps, proj
from soapfish import xsd

ODD_TEXT = ['', ' ', '+', '-', '.', '1e5', '1E2', '0x10', '1_000', '١', '--1', '1.', '.5', '+.5', 'INF', '-INF', 'NaN', 'inf',
            'nan', '1,5', '1 2', 'abc', '1.2.3', '+-3', '1-', 'Infinity', '²', '00', '-0', '+0', '1.50', '007']


def decorate(r, lit):
    if r.random() < 0.25:
        lit = r.choice([' ', '\n\t', '']) + lit + r.choice([' ', '\r\n'])
    if r.random() < 0.2 and not lit.strip().startswith(('-', '+')):
        lit = '+' + lit.strip()
    if r.random() < 0.2:
        s = lit.strip()
        sign, body = (s[0], s[1:]) if s[:1] in '+-' else ('', s)
        lit = sign + '0' * r.randint(1, 3) + body
    return lit


def give_string(r, t):
    if r.random() < 0.06:
        return r.choice([(None, {'py': 'none'}), (5, {'py': 'bad'}), (b'ab', {'py': 'bad'}), (['a'], {'py': 'bad'}), (True, {'py': 'bad'})])
    s = simple.string_candidates(r, t, 1)[0]
    return s, {'py': 'str', 'lit': cps(s)}


def give_number(r, t):
    if r.random() < 0.06:
        return r.choice([(None, {'py': 'none'}), (object(), {'py': 'bad'}), (b'1', {'py': 'bad'}), ([1], {'py': 'bad'}), (True, {'py': 'bad'}), (False, {'py': 'bad'})])
    lit = simple.numeric_candidates(r, t, 1)[0]
    kind = r.random()
    if kind < 0.35:
        text = r.choice(ODD_TEXT) if r.random() < 0.25 else decorate(r, lit)
        return text, {'py': 'text', 'lit': cps(text)}
    if t.base in simple.INTEGER_TYPES:
        if '.' in lit:
            value = float(lit)
            return value, {'py': 'float'}
        return int(lit), {'py': 'int', 'lit': cps(str(int(lit)))}
    if kind < 0.55 and '.' not in lit:
        return int(lit), {'py': 'int', 'lit': cps(str(int(lit)))}
    if t.base == 'decimal' and kind < 0.8:
        value = decimal.Decimal(lit)
        return value, {'py': 'dec', 'lit': cps(format(value, 'f'))}
    if len(lit) > 14:
        return lit, {'py': 'text', 'lit': cps(lit)}
    value = float(lit)
    text = format(decimal.Decimal(repr(value)), 'f') if t.base == 'decimal' else repr(value)
    return value, {'py': 'float', 'lit': cps(text)}


XML_OK = set('\t\n\r') | {chr(x) for x in range(0x20, 0xd800)}


def run_case(r, t):
    number = t.base in simple.NUMERIC
    give = give_number if number else give_string
    shape = r.choice(['element', 'element', 'list', 'list', 'attribute'])
    field_type = t.instance(r)
    maximum = -1
    if shape == 'element':
        field = xsd.Element(field_type, minOccurs=r.choice([0, 1]))
    elif shape == 'list':
        maximum = r.choice([-1, -1, 2, 3])
        field = xsd.ListElement(field_type, 'f', minOccurs=0, maxOccurs=xsd.UNBOUNDED if maximum < 0 else maximum)
    else:
        field = xsd.Attribute(field_type, use=xsd.Use.OPTIONAL)
    cls = type('Holder', (xsd.ComplexType,), {'f': field})
    obj = cls()

    def state(o):
        return [proj(v) for v in o.f] if shape == 'list' else [proj(o.f)]

    events = []
    case = {'type': t.base, 'facets': t.spec, 'max': maximum, 'shape': shape, 'init': state(obj), 'events': events,
            'python': repr(t.facets)}
    for _ in range(r.randint(3, 7)):
        fresh, lo, hi = False, 0, 0
        if shape == 'list':
            op = r.choice(['append', 'append', 'insert', 'extend', 'iadd', 'setitem', 'slice', 'whole', 'ctor', 'parse'])
            n = len(obj.f)
            if op == 'iadd' and number and t.regex:
                op = 'extend'  # += gives the numbers in the list once more, whose text is not the one they were read from
            if op == 'setitem' and n == 0:
                op = 'append'
            given = [give(r, t) for _ in range(1 if op in ('append', 'insert', 'setitem') else r.randint(0, 3))]
            values = [v for v, _ in given]
            if op == 'append':
                act = lambda: obj.f.append(values[0])
            elif op == 'insert':
                at = r.randint(-n - 1, n + 1)
                lo = max(0, at + n) if at < 0 else min(at, n)
                act = lambda: obj.f.insert(at, values[0])
            elif op == 'extend':
                arg = r.choice([list, tuple, iter])(values)
                act = lambda: obj.f.extend(arg)
            elif op == 'iadd':
                def act():
                    obj.f += values
            elif op == 'setitem':
                at = r.randint(-n, n - 1)
                lo, hi = at % n, at % n + 1
                act = lambda: obj.f.__setitem__(at, values[0])
            elif op == 'slice':
                a, b = sorted([r.randint(0, n), r.randint(0, n)])
                lo, hi = a, b
                act = lambda: obj.f.__setitem__(slice(a, b), values)
            elif op == 'whole':
                fresh = True
                act = lambda: setattr(obj, 'f', r.choice([list, tuple])(values))
            elif op == 'ctor':
                fresh = True
                act = lambda: cls(f=values)
        else:
            op = r.choice(['assign', 'assign', 'ctor', 'parse'])
            fresh = True
            given = [give(r, t)]
            values = [v for v, _ in given]
            if op == 'assign':
                act = lambda: setattr(obj, 'f', values[0])
            elif op == 'ctor':
                act = lambda: cls(f=values[0])
        if op == 'parse':
            given = [(v, g) for v, g in given if isinstance(v, str) and set(v) <= XML_OK and v != 'nil']
            if shape != 'list' and not given:
                continue
            given = [(v, dict(g, py='empty') if v == '' and number and shape != 'attribute' else g) for v, g in given]
            root = etree.Element('holder')
            for v, _ in given:
                if shape == 'attribute':
                    root.set('f', v)
                else:
                    etree.SubElement(root, 'f').text = v
            xml = etree.tostring(root)
            fresh = True
            act = lambda: cls.parsexml(xml)
        ok, exc, result = call(act)
        if ok and op in ('ctor', 'parse'):
            obj = result
        items = [dict({'lit': []}, **g) for _, g in given]
        events.append({'op': op, 'fresh': fresh, 'items': items, 'lo': lo, 'hi': hi, 'ok': ok, 'exc': exc,
                       'after': state(obj), 'args': repr([v for v, _ in given])[:200]})
    return case


def body(check):
    facets.replay(check, facets.accepting, facets.explore(check))
    r = vlib.rng('p10')
    cases = []
    for k in range(vlib.scale(12000, 100000)):
        t = simple.gen_string_type(r) if k % 2 else simple.gen_numeric_type(r)
        cases.append(run_case(r, t))
    for case in cases[:3]:
        check.sample(case)
    for start in range(0, len(cases), 20000):
        check.validate('FacetTrace', cases[start:start + 20000])


if __name__ == '__main__':
    raise SystemExit(vlib.main('P10', body))
