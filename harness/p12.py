"""P12: simple values survive writing to XML and reading back (spec/Calendar.tla, spec/LexicalTrace.tla)."""
import datetime
import decimal
import struct

from lxml import etree

import simple
import vlib
from simple import call, cps, proj
from soapfish import xsd
from soapfish.xsd_types import XSDDate

HOLDERS = {}


def holder(base):
    if base not in HOLDERS:
        t = simple.BUILTIN[base]
        HOLDERS[base] = (
            type('Holder', (xsd.ComplexType,), {'f': xsd.Element(t)}),
            type('Holder', (xsd.ComplexType,), {'f': xsd.Attribute(t, use=xsd.Use.OPTIONAL)}),
            type('Holder', (xsd.ComplexType,), {'f': xsd.ListElement(t, 'f', minOccurs=0, maxOccurs=xsd.UNBOUNDED)}),
        )
    return HOLDERS[base]


def read_text(xml, shape):
    """The text in the document, as an XML parser of its own sees it."""
    root = etree.fromstring(xml)
    if shape == 'attribute':
        return root.get('f')
    nodes = [e for e in root if e.tag == 'f']
    return None if len(nodes) != 1 else ''.join(nodes[0].itertext())


def write_event(base, value, shape):
    cls = holder(base)[{'element': 0, 'attribute': 1, 'list': 2}[shape]]
    e = {'op': 'write', 'shape': shape, 'value': proj(value), 'text': [], 'ok': False, 'backok': False,
         'back': {'t': 'none'}, 'same': True, 'exc': '', 'args': repr(value)[:100]}

    def write():
        obj = cls()
        if shape == 'list':
            obj.f.append(value)
        else:
            obj.f = value
        xml = obj.xml('h')
        return xml, obj.xml('h') == xml

    ok, e['exc'], result = call(write)
    if not ok:
        return e
    xml, e['same'] = result
    text = read_text(xml, shape)
    if text is None:
        return e
    e['ok'], e['text'] = True, cps(text)
    ok, e['exc'], back = call(lambda: cls.parsexml(xml).f)
    if ok and shape == 'list':
        ok, back = len(back) == 1, back[0] if len(back) == 1 else None
    e['backok'], e['back'] = ok, proj(back) if ok else {'t': 'none'}
    return e


def read_event(r, base, text, shape):
    cls = holder(base)[{'element': 0, 'attribute': 1, 'list': 2}[shape]]
    root = etree.Element('h')
    if shape == 'attribute':
        root.set('f', text)
    else:
        node = etree.SubElement(root, 'f')
        cut = sorted(r.randint(0, len(text)) for _ in range(r.choice([0, 0, 0, 1, 2])))
        node.text = text[:cut[0]] if cut else text
        for a, b in zip(cut, cut[1:] + [len(text)]):
            child = etree.Comment('12') if r.random() < 0.7 else etree.ProcessingInstruction('pi', '34')
            child.tail = text[a:b]
            node.append(child)
    xml = etree.tostring(root)
    ok, exc, value = call(lambda: cls.parsexml(xml).f)
    if ok and shape == 'list':
        ok, exc, value = len(value) == 1, 'nothing', value[0] if len(value) == 1 else None
    return {'op': 'read', 'shape': shape, 'text': cps(text), 'ok': ok, 'exc': exc,
            'value': proj(value) if ok else {'t': 'none'}, 'args': repr(xml)[:150]}


def given_values(r, base):
    """Python values for a field: texts, values of other types and none of all."""
    moment = datetime.datetime(2001, 2, 3, 4, 5, 6, tzinfo=datetime.timezone.utc)
    others = {'date': datetime.date(2001, 2, 3), 'dateTime': moment, 'time': moment.timetz()}
    junk = [5, 1.5, -1, b'2001-02-03', ['2001-02-03'], {}, object(), moment.timestamp(), datetime.timedelta(1), (2001, 2, 3), type, float('nan')]
    if base == 'boolean':
        junk += ['true', 'false', '1', '0', '', 'x', 2, [True], None.__class__, 'True']
    else:
        junk += [v for k, v in others.items() if k != base] + [True]
        junk += [random_text(r, base)] * 10
    return r.choice(junk)


def give_event(base, value, shape):
    """A value is given to a field."""
    cls = holder(base)[{'element': 0, 'attribute': 1, 'list': 2}[shape]]
    obj = cls()
    before = proj(None) if shape != 'list' else []

    def give():
        if shape == 'list':
            obj.f.append(value)
        else:
            obj.f = value

    ok, exc, _ = call(give)
    held = obj.f if shape != 'list' else (obj.f[0] if len(obj.f) == 1 else None)
    clean = ok or ([proj(x) for x in obj.f] == before if shape == 'list' else proj(obj.f) == before)
    return {'op': 'give', 'shape': shape, 'py': 'text' if isinstance(value, str) else 'other', 'text': cps(value) if isinstance(value, str) else [],
            'ok': ok, 'exc': exc, 'clean': clean, 'value': proj(held), 'args': repr(value)[:100]}


def compare_event(r):
    """Two dates, which differ in one thing at most."""
    def zone():
        return r.choice([None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(minutes=r.choice([0, 90, -90, 840])))])
    a = [r.choice([1, 1999, 2000]), r.randint(1, 12), r.randint(1, 28), zone()]
    b = list(a)
    if r.random() < 0.6:
        k = r.randrange(4)
        b[k] = zone() if k == 3 else r.randint(1, 12)
    a, b = (XSDDate(*x[:3], tzinfo=x[3]) for x in (a, b))
    ok, exc, got = call(lambda: (a == b, b == a, not a != b))
    return {'op': 'compare', 'shape': 'element', 'text': [], 'ok': ok, 'exc': exc, 'equal': [bool(x) for x in got] if ok else [],
            'value': proj(a), 'other': proj(b), 'args': f'{a} {b}'}


def python_value(v):
    tz = datetime.timezone(datetime.timedelta(minutes=v['tz'][0])) if v['tz'] else None
    if v['t'] == 'date':
        return XSDDate(v['y'], v['m'], v['d'], tzinfo=tz)
    if v['t'] == 'time':
        return datetime.time(v['h'], v['mi'], v['s'], v['us'], tzinfo=tz)
    return datetime.datetime(v['y'], v['m'], v['d'], v['h'], v['mi'], v['s'], v['us'], tzinfo=tz)


class Zone(datetime.tzinfo):
    """A time zone which is not datetime.timezone."""

    def __init__(self, minutes):
        self.delta = datetime.timedelta(minutes=minutes)

    def utcoffset(self, when):
        return self.delta

    def dst(self, when):
        return datetime.timedelta(0)

    def tzname(self, when):
        return 'UTC'


def random_tz(r):
    kind = r.random()
    minutes = r.choice([0, 30, -30, -1, 1, 59, -59, 60, -60, 90, -90, 330, -570, 840, -840, r.randint(-840, 840)])
    if kind < 0.5:
        return datetime.timezone(datetime.timedelta(minutes=minutes))
    if kind < 0.75:
        return Zone(minutes)
    if kind < 0.9:
        return datetime.timezone.utc
    return None


def random_micro(r):
    return r.choice([0, 0, 1, 10, 500000, 999999, 100000, 120, r.randint(0, 999999)])


def random_value(r, base):
    if base in simple.STRING_TYPES:
        chars = 'abc <>&"\'é日\U0001f600]\t\n\r\x85\u2028\xa0' if r.random() < 0.6 else 'xyz019'
        return ''.join(r.choice(chars) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20])))
    if base == 'boolean':
        return r.choice([True, False])
    if base in simple.INTEGER_TYPES:
        lo, hi = simple.RANGES[base]
        lo = -10 ** 30 if lo is None else lo
        hi = 10 ** 30 if hi is None else hi
        small = [x for x in (0, 1, -1, 10, 100, -100) if lo <= x <= hi]
        return r.choice([lo, hi, r.randint(lo, hi), r.choice(small or [lo])])
    if base == 'decimal':
        return r.choice([
            decimal.Decimal(r.choice(['0', '-0', '1E+10', '1E-10', '1.50', '100', '-0.000', '12345678901234567890.123456789', '1E+3'])),
            decimal.Decimal(r.randint(-10 ** 20, 10 ** 20)).scaleb(-r.randint(0, 25)), r.randint(-10 ** 18, 10 ** 18),
            r.uniform(-1, 1) * 10 ** r.randint(-12, 20), float(r.randint(-1000, 1000)) / 8, 1e22, 1e-7, 0.1])
    if base in simple.FLOAT_TYPES:
        return r.choice([
            0.0, -0.0, 1e22, 1e-7, float('inf'), float('-inf'), float('nan'), 0.1, 5e-324, 1.7976931348623157e308, r.randint(-100, 100),
            r.uniform(-1, 1) * 10 ** r.randint(-30, 30),
            struct.unpack('d', struct.pack('Q', r.getrandbits(64) & ~(1 << 62)))[0]])
    if base == 'date':
        y, m, d = r.choice([1, 9, 99, 999, 1000, 1999, 2000, 2024, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.randint(1, 28)
        return XSDDate(y, m, d, tzinfo=random_tz(r)) if r.random() < 0.7 else datetime.date(y, m, d)
    if base == 'dateTime':
        y = r.choice([1, 99, 999, 1000, 2000, 9999, r.randint(1, 9999)])
        return datetime.datetime(y, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                                 random_micro(r), tzinfo=random_tz(r))
    return datetime.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), random_micro(r), tzinfo=random_tz(r))


def random_text(r, base):
    """A lexical form, a mutated lexical form or something else."""
    if base in simple.STRING_TYPES:
        return random_value(r, base)
    if base == 'boolean':
        text = r.choice(['true', 'false', '1', '0', 'True', 'FALSE', 'yes', '2', '', '01', 't', 'on', 'None', '-1', '1.0', 'truefalse'])
    elif base in simple.NUMERIC:
        number = simple.random_number(r, base)
        if base in simple.FLOAT_TYPES and r.random() < 0.4:
            number += r.choice('eE') + r.choice(['', '+', '-']) + str(r.randint(0, 25))
        sign, body = (number[0], number[1:]) if number[0] in '+-' else (r.choice(['', '+', '-']), number)
        kind = r.random()
        if kind < 0.3:
            body = '0' * r.randint(1, 4) + body
        elif kind < 0.5 and base not in simple.INTEGER_TYPES and 'e' not in body.lower():
            body = body + ('000' if '.' in body else r.choice(['.', '.0', '.00']))
        elif kind < 0.6 and base not in simple.INTEGER_TYPES:
            body = '.' + body.replace('.', '')
        text = sign + body
        if r.random() < 0.12:
            text = r.choice(['INF', '-INF', 'NaN', '+INF', 'inf', 'nan', 'Infinity', '1e', 'e5', '1e5.5', '1E 5', '0x1F', '1_000', '', '.', '+', '1 000', '1,5', '١', '1e+', 'infinity', '-inf', '1f', '1L'])
    else:
        date = f'{r.choice([1, 999, 1999, 2000, 2024, r.randint(1, 9999)]):04d}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}'
        clock = f'{r.randint(0, 23):02d}:{r.randint(0, 59):02d}:{r.randint(0, 59):02d}'
        if r.random() < 0.5:
            clock += '.' + ''.join(r.choice('0123456789') for _ in range(r.randint(1, 6))) + r.choice(['', '', '000'])
            head, _, frac = clock.partition('.')
            clock = head + '.' + frac[:6] + '0' * max(0, len(frac) - 6)
        off = r.randint(0, 840)
        zone = r.choice(['Z', '+00:00', '-00:00', f'+{off // 60:02d}:{off % 60:02d}', f'-{off // 60:02d}:{off % 60:02d}', ''])
        text = {'date': date, 'dateTime': date + 'T' + clock, 'time': clock}[base] + zone
    if r.random() < 0.2:
        text = r.choice([' ', '\n', '\t ', '']) + text + r.choice([' ', '\n\n', ''])
    if r.random() < 0.25:
        at = r.randint(0, len(text))
        text = r.choice([text[:at] + r.choice('x-:+.5Z١') + text[at:], text[:at] + text[at + 1:], text + r.choice('x-:+.5Z\n')])
    return text


def body(check):
    r = vlib.rng('p12')
    behaviours = check.explore(
        'Calendar', f'SPECIFICATION Spec\nCONSTANT Deep = {"FALSE" if vlib.QUICK else "TRUE"}\nCHECK_DEADLOCK FALSE\n'
        'INVARIANTS Sound OffsetShifts\n')
    if len(behaviours) < 3000:
        raise vlib.MachineryError('the exploration is incomplete')
    cases = []
    for b in behaviours:
        text = ''.join(map(chr, b['text']))
        events = [read_event(r, b['type'], text, r.choice(['element', 'attribute', 'list']))]
        if b['valid']:
            events.append(write_event(b['type'], python_value(b['value']), r.choice(['element', 'attribute', 'list'])))
        cases.append({'type': b['type'], 'events': events})
    check.sample(cases[0])
    check.validate('LexicalTrace', cases, name='Calendar-replay', timeout=1500)
    cases = []
    for k in range(vlib.scale(9000, 120000)):
        base = list(simple.BUILTIN)[k % len(simple.BUILTIN)]
        events = []
        for _ in range(2):
            if r.random() < 0.01 and base not in simple.STRING_TYPES:
                events.append(write_event(base, None, 'list'))
            else:
                events.append(write_event(base, random_value(r, base), r.choice(['element', 'attribute', 'list'])))
            text = random_text(r, base)
            shape = r.choice(['element', 'attribute', 'list'])
            if r.random() < 0.01 and base not in simple.STRING_TYPES:
                text = 'nil'
            if text.strip() != 'nil' or text == 'nil' and base not in simple.STRING_TYPES:
                events.append(read_event(r, base, text, shape))
        if base in simple.OTHER_TYPES:
            events.append(give_event(base, given_values(r, base), r.choice(['element', 'attribute', 'list'])))
        if base == 'date':
            events.append(compare_event(r))
        cases.append({'type': base, 'events': events})
    check.sample(cases[1])
    for start in range(0, len(cases), 20000):
        check.validate('LexicalTrace', cases[start:start + 20000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P12', body))
