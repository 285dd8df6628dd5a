"""Simple types: generators of types, facets and values, and the projection of Python values for the specification."""
import datetime
import decimal
import math

from vlib import cps, outcome

from soapfish import xsd

STRING_TYPES = {
    'string': xsd.String, 'anyURI': xsd.AnyURI, 'QName': xsd.QName, 'NMTOKEN': xsd.NMTOKEN, 'NMTOKENS': xsd.NMTOKENS,
    'base64Binary': xsd.Base64Binary, 'duration': xsd.Duration,
}
INTEGER_TYPES = {
    'integer': xsd.Integer, 'nonNegativeInteger': xsd.NonNegativeInteger, 'nonPositiveInteger': xsd.NonPositiveInteger,
    'negativeInteger': xsd.NegativeInteger, 'positiveInteger': xsd.PositiveInteger, 'long': xsd.Long, 'int': xsd.Int,
    'short': xsd.Short, 'byte': xsd.Byte, 'unsignedLong': xsd.UnsignedLong, 'unsignedInt': xsd.UnsignedInt,
    'unsignedShort': xsd.UnsignedShort, 'unsignedByte': xsd.UnsignedByte,
}
FLOAT_TYPES = {'double': xsd.Double, 'float': xsd.Float}
OTHER_TYPES = {'boolean': xsd.Boolean, 'date': xsd.Date, 'dateTime': xsd.DateTime, 'time': xsd.Time}
BUILTIN = {**STRING_TYPES, **INTEGER_TYPES, **FLOAT_TYPES, 'decimal': xsd.Decimal, **OTHER_TYPES}
NUMERIC = {**INTEGER_TYPES, **FLOAT_TYPES, 'decimal': xsd.Decimal}

RANGES = {
    'integer': (None, None), 'nonNegativeInteger': (0, None), 'nonPositiveInteger': (None, 0),
    'negativeInteger': (None, -1), 'positiveInteger': (1, None), 'long': (-2**63, 2**63 - 1),
    'int': (-2**31, 2**31 - 1), 'short': (-2**15, 2**15 - 1), 'byte': (-128, 127), 'unsignedLong': (0, 2**64 - 1),
    'unsignedInt': (0, 2**32 - 1), 'unsignedShort': (0, 65535), 'unsignedByte': (0, 255),
}


# --- projection of values --------------------------------------------------------------------------
def dec(number):
    """An exact decimal number as sign, integral and fraction digits."""
    text = format(decimal.Decimal(number), 'f')
    neg = text.startswith('-')
    i, _, f = text.lstrip('+-').partition('.')
    i, f = i.lstrip('0'), f.rstrip('0')
    return {'neg': neg and bool(i or f), 'i': [int(d) for d in i], 'f': [int(d) for d in f]}


def tz_minutes(tzinfo, when):
    if tzinfo is None:
        return []
    offset = tzinfo.utcoffset(when)
    seconds = offset.days * 86400 + offset.seconds
    if seconds % 60:
        return [999999]
    return [seconds // 60]


def proj(value):
    if value is None:
        return {'t': 'none'}
    if value is xsd.NIL:
        return {'t': 'nil'}
    if isinstance(value, bool):
        return {'t': 'bool', 'b': value}
    if isinstance(value, str):
        return {'t': 'str', 's': cps(value)}
    if isinstance(value, int):
        return {'t': 'num', 'n': dec(value)}
    if isinstance(value, float):
        if math.isinf(value):
            return {'t': 'inf', 'neg': value < 0}
        if math.isnan(value):
            return {'t': 'nan'}
        return {'t': 'num', 'n': dec(repr(value))}
    if isinstance(value, decimal.Decimal):
        if value.is_nan():
            return {'t': 'nan'}
        if value.is_infinite():
            return {'t': 'inf', 'neg': value < 0}
        return {'t': 'num', 'n': dec(value)}
    if isinstance(value, datetime.datetime):
        return {'t': 'dt', 'y': value.year, 'm': value.month, 'd': value.day, 'h': value.hour, 'mi': value.minute,
                's': value.second, 'us': value.microsecond, 'tz': tz_minutes(value.tzinfo, value)}
    if isinstance(value, datetime.time):
        return {'t': 'time', 'h': value.hour, 'mi': value.minute, 's': value.second, 'us': value.microsecond,
                'tz': tz_minutes(value.tzinfo, None)}
    if hasattr(value, 'year') and hasattr(value, 'month') and hasattr(value, 'day'):
        return {'t': 'date', 'y': value.year, 'm': value.month, 'd': value.day,
                'tz': tz_minutes(getattr(value, 'tzinfo', None), None)}
    return {'t': 'other', 'repr': repr(type(value))}


# --- regular expressions ---------------------------------------------------------------------------
ALPHABET = 'abcXYZ019 -_.+#/é'
SPACES = '\xa0\u2003\u3000\x85'   # which are none to XML


def gen_class(r):
    kind = r.random()
    if kind < 0.35:
        ch = r.choice('abcXYZ01_')
        return {'op': 'cls', 'neg': False, 'r': [[ord(ch), ord(ch)]]}
    if kind < 0.55:
        return {'op': 'cls', 'neg': False, 'r': [[48, 57]]}
    if kind < 0.8:
        lo, hi = sorted(r.sample('abcdwxyz', 2))
        ranges = [[ord(lo), ord(hi)]]
        if r.random() < 0.4:
            ranges.append([ord('A'), ord('F')])
        return {'op': 'cls', 'neg': False, 'r': ranges}
    if kind < 0.9:
        ch = r.choice('abX0')
        return {'op': 'cls', 'neg': True, 'r': [[ord(ch), ord(ch)]]}
    return {'op': 'cls', 'neg': False, 'r': [[65, 90], [48, 57]]}


def gen_regex(r, depth=2):
    kind = r.random()
    if depth == 0 or kind < 0.25:
        return gen_class(r)
    if kind < 0.6:
        return {'op': 'seq', 'a': [gen_regex(r, depth - 1) for _ in range(r.randint(2, 3))]}
    if kind < 0.75:
        return {'op': 'alt', 'a': [gen_regex(r, depth - 1) for _ in range(2)]}
    lo = r.choice([0, 0, 1, 1, 2])
    hi = r.choice([-1, lo, lo + 1, lo + 2])
    return {'op': 'rep', 'a': [gen_class(r)], 'min': lo, 'max': hi if hi != 0 else 1}


def gen_plain_regex(r):
    """An expression which needs no backtracking (libxml2 makes mistakes with others): each part starts with other characters."""
    classes = [[[48, 57]], [[97, 102]], [[65, 70], [88, 90]], [[95, 95]], [[120, 122], [113, 113]]]
    r.shuffle(classes)

    def item(c):
        c = {'op': 'cls', 'neg': False, 'r': c}
        if r.random() < 0.5:
            return c
        lo = r.choice([0, 1, 1, 2])
        hi = r.choice([-1, lo, lo + 1, lo + 2])
        return {'op': 'rep', 'a': [c], 'min': lo, 'max': hi if hi != 0 else 1}

    items = [item(c) for c in classes[:r.randint(1, 4)]]
    return {'op': 'seq', 'a': items} if len(items) > 1 else items[0]


def regex_text(re):
    """The expression in the notation Python and XML Schema share."""
    op = re['op']
    if op == 'cls':
        def char(x):
            return chr(x) if chr(x).isalnum() else '\\' + chr(x) if chr(x) in '-[]^.\\+*?{}()|' else chr(x)
        if re['r'] == [[48, 57]] and not re['neg']:
            return '[0-9]'
        body = ''.join(char(lo) if lo == hi else f'{char(lo)}-{char(hi)}' for lo, hi in re['r'])
        if not re['neg'] and len(re['r']) == 1 and re['r'][0][0] == re['r'][0][1]:
            return char(re['r'][0][0])
        return '[' + ('^' if re['neg'] else '') + body + ']'
    if op == 'seq':
        return ''.join(regex_text(x) if x['op'] != 'alt' else '(' + regex_text(x) + ')' for x in re['a'])
    if op == 'alt':
        return '|'.join(regex_text(x) for x in re['a'])
    lo, hi = re['min'], re['max']
    q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((lo, hi))
    if q is None:
        q = '{%d}' % lo if lo == hi else '{%d,%s}' % (lo, '' if hi == -1 else hi)
    return '(' + regex_text(re['a'][0]) + ')' + q


def regex_sample(re, r):
    op = re['op']
    if op == 'cls':
        if re['neg']:
            return r.choice([c for c in 'qrs5' if not any(lo <= ord(c) <= hi for lo, hi in re['r'])])
        lo, hi = r.choice(re['r'])
        return chr(r.randint(lo, hi))
    if op == 'seq':
        return ''.join(regex_sample(x, r) for x in re['a'])
    if op == 'alt':
        return regex_sample(r.choice(re['a']), r)
    hi = re['max'] if re['max'] != -1 else re['min'] + r.randint(0, 2)
    return ''.join(regex_sample(re['a'][0], r) for _ in range(r.randint(re['min'], hi)))


def mutate_text(text, r):
    kind = r.random()
    at = r.randint(0, len(text))
    if kind < 0.3:
        return text[:at] + r.choice(ALPHABET) + text[at:]
    if kind < 0.5 and text:
        return text[:at] + text[at + 1:]
    if kind < 0.65:
        return text + r.choice(['\n', ' ', 'x', '0', text])
    if kind < 0.75:
        return r.choice([' ', '\t', '\n', 'x']) + text
    if kind < 0.9 and text:
        return text[:at] + r.choice(ALPHABET) + text[at + 1:]
    return text.swapcase()


def random_string(r, n=None):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8]) if n is None else n
    return ''.join(r.choice(ALPHABET + '   \t\n\r<&>"\'' + '\U0001f600' + '日' + SPACES) for _ in range(n))


# --- types with facets -----------------------------------------------------------------------------
class TypeDef:
    """A simple type: name of the builtin type, facets for Python, facets for the specification."""

    def __init__(self, base, facets=None, spec=None, regex=None):
        self.base, self.facets, self.spec, self.regex = base, facets or {}, spec or {}, regex

    def instance(self, r=None, style=None, name='T'):
        """The Python type, with the facets as arguments, as class attributes or spread over subclasses."""
        cls = BUILTIN[self.base]
        style = style or (r.choice(['args', 'class', 'split', 'sub']) if r else 'args')
        items = list(self.facets.items())
        if style == 'args' or not items:
            return cls(**self.facets)
        if style == 'class':
            return type(name, (cls,), dict(items))
        if style == 'sub':  # inherited facets
            return type(name, (type(name + 'Base', (cls,), dict(items)),), {})
        cut = r.randint(0, len(items)) if r else len(items) // 2
        base = type(name, (cls,), dict(items[:cut]))
        return base(**dict(items[cut:]))

    def as_class(self, name='T'):
        return type(name, (BUILTIN[self.base],), dict(self.facets))


def gen_string_type(r, bases=None, pattern=True, gen_regex=gen_regex):
    base = r.choice(list(bases or ['string'] * 6 + list(STRING_TYPES)))
    facets, spec, regex = {}, {}, None
    if r.random() < 0.35:
        facets['whiteSpace'] = spec['whiteSpace'] = r.choice(['preserve', 'replace', 'collapse'])
    if pattern and r.random() < 0.35:
        regex = gen_regex(r)
        facets['pattern'] = regex_text(regex)
        spec['pattern'] = regex
    if r.random() < 0.25:
        values = [regex_sample(regex, r) if regex and r.random() < .7 else r.choice(['A', 'ab', 'B c', '', '10', "it's"])
                  for _ in range(r.randint(1, 3))]
        facets['enumeration'] = values
        spec['enumeration'] = [cps(v) for v in values]
    kind = r.random()
    if kind < 0.2:
        facets['length'] = spec['length'] = r.choice([0, 1, 2, 3, 5])
    else:
        if r.random() < 0.25:
            facets['minLength'] = spec['minLength'] = r.choice([0, 1, 2, 3])
        if r.random() < 0.25:
            facets['maxLength'] = spec['maxLength'] = (spec.get('minLength', 0) + r.choice([0, 1, 3]))
    return TypeDef(base, facets, spec, regex)


def random_number(r, base):
    """A literal in decimal notation for the type."""
    if base in INTEGER_TYPES:
        lo, hi = RANGES[base]
        kind = r.random()
        if kind < 0.4:
            return str(r.randint(-20, 20))
        if kind < 0.6:
            return str(r.choice([-1, 1]) * 10 ** r.randint(1, 25) + r.randint(-2, 2))
        pivot = r.choice([x for x in (lo, hi, 0, 2**31, -2**31, 2**63, 255, -128) if x is not None])
        return str(pivot + r.randint(-2, 2))
    if base == 'decimal' and r.random() < 0.12:
        return r.choice(['', '-']) + r.choice(['20', '1000', '4300', '100000', '0.0000001', '0.00000025'])
    digits = r.randint(0, 5)
    number = r.choice(['', '-']) + str(r.choice([0, 1, 5, 12, 99, 100, r.randint(0, 10 ** 6)]))
    return number + ('.' + ''.join(r.choice('0123456789') for _ in range(digits)) if digits else '')


def gen_numeric_type(r, base=None, pattern=True, both=True):
    base = base or r.choice(['decimal'] * 4 + ['integer', 'int'] * 3 + list(NUMERIC))
    facets, spec = {}, {}

    def number(lit):
        if base in INTEGER_TYPES:
            return r.choice([int(lit), lit])
        if base == 'decimal':
            exact = decimal.Decimal(lit)
            if r.random() < 0.6:  # the same number with another exponent, like 1E+3 for 1000
                digits = exact.as_tuple()
                exact = exact.normalize(decimal.Context(prec=len(digits.digits) + 1)) if len(digits.digits) < 1000 else exact
            return r.choice([exact, lit, float(lit) if len(lit) < 14 else lit])
        return r.choice([float(lit), lit])

    def literal():
        while True:
            lit = random_number(r, base)
            if base not in INTEGER_TYPES:
                return lit
            lo, hi = RANGES[base]
            if (lo is None or int(lit) >= lo) and (hi is None or int(lit) <= hi):
                return lit

    lits = sorted([literal(), literal()], key=decimal.Decimal)
    if r.random() < 0.45:
        name = r.choice(['minInclusive', 'minExclusive'])
        facets[name], spec[name] = number(lits[0]), cps(lits[0])
    if r.random() < 0.45:
        name = r.choice(['maxInclusive', 'maxExclusive'])
        facets[name], spec[name] = number(lits[1]), cps(lits[1])
    if both and r.random() < 0.15:  # both limits on the same side: equal, or either is the tighter one
        for name in r.choice([('minInclusive', 'minExclusive'), ('maxInclusive', 'maxExclusive')]):
            lit = r.choice([lits[name < 'min'], lits[name < 'min'], literal()])
            if name not in facets:
                facets[name], spec[name] = number(lit), cps(lit)
    if r.random() < 0.2:
        values = [literal() for _ in range(r.randint(1, 3))]
        facets['enumeration'], spec['enumeration'] = [number(v) for v in values], [cps(v) for v in values]
    if base not in FLOAT_TYPES and r.random() < 0.3:
        facets['totalDigits'] = spec['totalDigits'] = r.randint(1, 6)
    if base == 'decimal' and r.random() < 0.3:
        facets['fractionDigits'] = spec['fractionDigits'] = r.choice([0, 1, 2, 3])
    regex = None
    if pattern and base not in FLOAT_TYPES and r.random() < 0.15:
        digit = {'op': 'cls', 'neg': False, 'r': [[48, 57]]}
        minus = {'op': 'rep', 'a': [{'op': 'cls', 'neg': False, 'r': [[45, 45]]}], 'min': 0, 'max': 1}
        regex = {'op': 'seq', 'a': [minus, {'op': 'rep', 'a': [digit], 'min': r.choice([1, 2]), 'max': r.choice([2, 3, -1])}]}
        facets['pattern'], spec['pattern'] = regex_text(regex), regex
    return TypeDef(base, facets, spec, regex)


def numeric_candidates(r, t, n):
    """Literals around everything the type mentions."""
    pivots = [uncp(v) for k, v in t.spec.items() if k.endswith('clusive')]
    pivots += [uncp(v) for v in t.spec.get('enumeration', [])]
    result = []
    for _ in range(n):
        kind = r.random()
        if pivots and kind < 0.6:
            p = decimal.Decimal(r.choice(pivots))
            step = decimal.Decimal(1) if t.base in INTEGER_TYPES else decimal.Decimal(1).scaleb(-r.randint(0, 4))
            lit = format(p + step * r.choice([-1, 0, 0, 1]), 'f')
        else:
            lit = random_number(r, t.base)
        if t.spec.get('fractionDigits') is not None and r.random() < 0.6:
            f = t.spec['fractionDigits'] + r.choice([0, 0, 0, 1, -1])
            lit = lit.partition('.')[0] + ('.' + ''.join(r.choice('0123456789') for _ in range(f)) if f > 0 else '')
        result.append(lit)
    return result


def uncp(codes):
    return ''.join(map(chr, codes))


def string_candidates(r, t, n):
    result = []
    for _ in range(n):
        kind = r.random()
        if t.regex and kind < 0.5:
            s = regex_sample(t.regex, r)
        elif t.spec.get('enumeration') and kind < 0.7:
            s = uncp(r.choice(t.spec['enumeration']))
        elif kind < 0.85:
            want = t.spec.get('length', t.spec.get('minLength', t.spec.get('maxLength', 2)))
            s = random_string(r, max(0, want + r.choice([-1, 0, 0, 0, 1])))
        else:
            s = random_string(r)
        if r.random() < 0.3:
            s = mutate_text(s, r)
        if 'whiteSpace' in t.spec and r.random() < 0.5:
            s = r.choice([' ', '\t ', '', '\n', '\xa0', ' \u2003']) + s.replace('b', ' \t b') + r.choice(['', '  ', '\r\n', '\u3000'])
        result.append(s)
    return result


def call(func, *args, **kw):
    """The result of an operation of the library and the name of the exception as far as the specification knows it."""
    kind, value = outcome(func, *args, **kw)
    if kind == 'ok':
        return True, '', value
    return False, 'ValueError' if isinstance(value, ValueError) else type(value).__name__, value
