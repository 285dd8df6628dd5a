"""P11: value spaces of the integer types: replay of spec/IntegerSpace.tla and random traces (spec/FacetTrace.tla)."""
import p10
import simple
import vlib
from simple import call, proj
from soapfish import xsd


def number(value):
    return int(''.join(map(chr, value)))


def replay(check, behaviours):
    classes = {}
    for b in behaviours:
        facets = {b['narrow'][0]: number(b['narrow'][1])} if b['narrow'] else {}
        key = (b['type'], tuple(facets.items()))
        if key not in classes:
            t = simple.TypeDef(b['type'], facets)
            one = type('One', (xsd.ComplexType,), {
                'a': xsd.Element(t.instance(style='args')), 'b': xsd.Element(t.as_class()),
                'c': xsd.ListElement(t.instance(style='args'), 'c', minOccurs=0, maxOccurs=xsd.UNBOUNDED),
                'd': xsd.Attribute(t.as_class(), use=xsd.Use.OPTIONAL)})
            classes[key] = one
        cls = classes[key]
        text = ''.join(map(chr, b['lit']))
        value = int(text) if b['form'] == 'int' else text
        obj = cls()
        entries = [('assign', lambda: (setattr(obj, 'a', value), obj.a)[1]),
                   ('assign-class', lambda: (setattr(obj, 'b', value), obj.b)[1]),
                   ('ctor', lambda: cls(b=value).b),
                   ('append', lambda: (obj.c.append(value), obj.c[-1])[1]),
                   ('attribute', lambda: (setattr(obj, 'd', value), obj.d)[1])]
        if b['form'] != 'int':
            entries += [('parse', lambda: cls.parsexml(f'<o><a>{text}</a></o>').a),
                        ('parse-attribute', lambda: cls.parsexml(f'<o d="{text.strip()}"/>').d)]
        for name, act in entries:
            ok, exc, result = call(act)
            held = proj(result) if ok else {'t': 'none'}
            if ok != b['ok'] or (not ok and exc != 'ValueError') or (ok and (held != b['held'] or type(result) is not int)):
                check.violation(f'{b["type"]} {facets} {name} {value!r}: accepted={ok} {exc} expected accepted={b["ok"]}',
                                {'behaviour': b, 'entry': name, 'held': held})
    check.replayed(len(behaviours), 'IntegerSpace')


def junk():
    """Python values and texts which are no integers, as cases for the trace specification."""
    cases = []
    for name, cls in simple.INTEGER_TYPES.items():
        obj = type('One', (xsd.ComplexType,), {'a': xsd.Element(cls)})()
        events = []
        for value in (1.0, 0.5, True, False, b'1', [1], '1.0', '1e1', '', ' ', '+', '-', '1_0', '0x1', '\u0661', 'nil ', '1 0', '--1',
                      '+-1', '1.', 'abc', '\xb2', '\uff11', '1\x00', '\u22121', '\xa01', '1\u2003', '\x0b1', '1\x0c', '1'):
            ok, exc, _ = call(setattr, obj, 'a', value)
            item = {'py': 'text', 'lit': simple.cps(value)} if isinstance(value, str) else {'py': 'bad', 'lit': []}
            events.append({'op': 'assign', 'fresh': True, 'items': [item], 'lo': 0, 'hi': 0, 'ok': ok, 'exc': exc,
                           'after': [proj(obj.a)], 'args': repr(value)})
        cases.append({'type': name, 'facets': {}, 'max': -1, 'init': [proj(None)], 'events': events})
    return cases


def body(check):
    behaviours = check.explore(
        'IntegerSpace',
        f'SPECIFICATION Spec\nCONSTANT Reach = {vlib.scale(2, 5)}\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS RangeKept NarrowingKept ExactValue\n')
    if len(behaviours) < 10000:
        raise vlib.MachineryError('the exploration is incomplete')
    check.sample(behaviours[0])
    replay(check, behaviours)
    r = vlib.rng('p11')
    cases = junk()
    for k in range(vlib.scale(3000, 40000)):
        base = r.choice(list(simple.INTEGER_TYPES))
        t = simple.gen_numeric_type(r, base, pattern=False) if r.random() < 0.6 else simple.TypeDef(base)
        cases.append(p10.run_case(r, t))
    check.sample(cases[0])
    check.validate('FacetTrace', cases)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P11', body))
