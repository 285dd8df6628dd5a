"""Class models whose schema is generated: schemas of several documents, documents for them and their mutations."""
import copy
import decimal

import simple
from lxml import etree
from model import NONE, XSI, Generator, Options, Presenter
from simple import cps
from soapfish import xsd

FORMS = {True: xsd.ElementFormDefault.QUALIFIED, False: xsd.ElementFormDefault.UNQUALIFIED}
# Where the declarations say the same as XML Schema about every text.
EXACT = dict(refs=False, attr_groups=False, override=False, string_types=('string',),
             builtin=['string'] + [t for t in simple.BUILTIN if t not in simple.STRING_TYPES])


class SchemaGenerator(Generator):
    """Models with a schema (with includes) and global elements; m.elements: name -> element."""

    def __init__(self, r, options=None, **kw):
        super().__init__(r, options or Options(**{**EXACT, **kw}))

    def simple_type(self, m):
        r, o = self.r, self.o
        while True:
            kind = r.random()
            if kind < 0.4:
                base = r.choice(o.string_types)
                t = simple.gen_string_type(r, bases=[base], gen_regex=simple.gen_plain_regex) if r.random() < 0.6 else simple.TypeDef(base)
            elif kind < 0.8:
                base = r.choice([b for b in o.builtin if b in simple.NUMERIC])
                t = simple.gen_numeric_type(r, base) if r.random() < 0.6 else simple.TypeDef(base)
            else:
                t = simple.TypeDef(r.choice([b for b in o.builtin if b in simple.OTHER_TYPES]))
            if consistent(t):
                break
        if len(t.facets) > 1 and r.random() < 0.2:
            # A class derived from a class, each with some of the facets.
            name = self.name('s')
            title = self.title(name)
            items = list(t.facets.items())
            cut = r.randint(0, len(items))
            base = type('D' + name[1:] + 'Type', (simple.BUILTIN[t.base],), dict(items[:cut]))
            if not all(simple.call(base().accept, v)[0] for v in literals(t)):
                return self.register_simple(m, t)
            cls = type(title, (base,), dict(items[cut:]))
            m.types[name] = {'kind': 'simple', 'type': t.base, 'facets': t.spec}
            m.defs[name] = t
            m.simple_classes += [base, cls]
            return name, cls
        return self.register_simple(m, t)

    def text(self, m, name, bad=0.0):
        text = super().text(m, name, bad)
        # libxml2 does not accept whitespace around dates and times.
        return text.strip() if text and m.types[name]['type'] in ('date', 'dateTime', 'time') else text

    def build(self, includes=True, imports=(), label=''):
        m = super().build()
        while any(m.types[c]['ind'] == 'choice' and all(f['k'] == 'attr' for f in m.fields(c)) for c in m.complex):
            m.close()  # a choice between nothing
            m = super().build()
        r = self.r
        m.elements = {}
        declared = {}
        for _ in range(r.randint(1, 3)):
            name = self.name(r.choice(['root', 'El', 'my-el', 'e.x']))
            kind = r.random()
            if kind < 0.75:
                t = r.choice(m.complex)
                passed = self.passed_complex(m, t)
            else:
                t, passed = self.simple_type(m)
            nil = r.random() < 0.2
            declared[name] = xsd.Element(passed, nillable=nil)
            m.elements[name] = {'n': name, 'type': t, 'nil': nil}
        classes = [m.classes[c] for c in m.complex]
        simple_classes = list(m.simple_classes)
        form = FORMS[m.q]
        inner = []
        if includes and r.random() < 0.4:
            # Any partition will do: an include is the same as if everything was in one document.
            for k in range(r.randint(1, 2)):
                part = [c for c in classes if r.random() < 0.4]
                simple_part = [s for s in simple_classes if r.random() < 0.4]
                classes = [c for c in classes if c not in part]
                simple_classes = [s for s in simple_classes if s not in simple_part]
                nested = [inner.pop()] if inner and r.random() < 0.5 else []
                inner.append(xsd.Schema(m.tns, elementFormDefault=form, complexTypes=part, simpleTypes=simple_part,
                                        includes=nested, location=label + r.choice(['inc%d.xsd', 'a/b%d.xsd', 'http://x.org/i%d', 'i %d&.xsd']) % k))
        if imports and inner and r.random() < 0.3:
            inner[0].imports, imports = imports, ()
        m.schema = xsd.Schema(m.tns, elementFormDefault=form, imports=imports, complexTypes=classes, simpleTypes=simple_classes,
                              elements=declared, includes=inner, location=label + 'root.xsd')
        for t in m.types.values():
            if t['kind'] == 'complex':
                t['sns'] = [m.tns]
        return m

    def element_tree(self, m, el, bad=0.0):
        """A document for a global element."""
        if el['nil'] and self.r.random() < 0.2:
            return nil_tree(m.tns, el['n'])
        if m.is_simple(el['type']):
            text = self.text(m, el['type'], bad)
            return {'ns': m.tns, 'n': el['n'], 'a': [], 'k': [], 'x': cps(text or '')}
        return self.tree(m, el['type'], el['n'], m.tns, bad=bad)


def literals(t):
    """The values which facets of the type mention, as text."""
    return [''.join(map(chr, v)) for k, v in t.spec.items() if k.endswith('clusive')] + \
        [''.join(map(chr, v)) for v in t.spec.get('enumeration', [])]


def consistent(t):
    """The facets may stand together in a schema (there may be no value which has all of them)."""
    f = {k: ''.join(map(chr, v)) if isinstance(v, list) and k.endswith('clusive') else v for k, v in t.spec.items()}
    if t.base == 'float' and f:  # (numbers of 32 bits in XML Schema)
        return False
    if 'totalDigits' in f and f['totalDigits'] < f.get('fractionDigits', 0):
        return False
    low, high = simple.RANGES.get(t.base, (None, None))
    lows = [(decimal.Decimal(low), 0)] if low is not None else []
    highs = [(decimal.Decimal(high), 0)] if high is not None else []
    for name, value in f.items():
        if name.startswith('min') and name.endswith('clusive'):
            lows.append((decimal.Decimal(value), int('Ex' in name)))
        if name.startswith('max') and name.endswith('clusive'):
            highs.append((decimal.Decimal(value), -int('Ex' in name)))
    if lows and highs:
        a, b = max(lows), min(highs)
        if a[0] > b[0] or (a[0] == b[0] and (a[1] or b[1])):
            return False
    # libxml2 counts on at most 24 digits.
    return all(len(v) <= 18 for k, v in f.items() if k.endswith('clusive'))


def regular(m, tree, el):
    """xsi:nil="false" says something about nillable elements only: not used for others."""
    def fix(node, t, nil):
        if not nil and not any(a['n'] == 'nil' and bytes(a['v']) in (b'true', b'1') for a in node['a']):
            node['a'] = [a for a in node['a'] if a['ns'] != XSI]
        if t in m.types and not m.is_simple(t):
            for kid in node['k']:
                f = next((f for f in m.fields(t) if f['tag'] == kid['n']), None)
                fix(kid, f['type'] if f else '', f['nil'] if f else False)
    fix(tree, el['type'], el['nil'])
    return tree


def nil_tree(ns, name, value='true'):
    return {'ns': ns, 'n': name, 'a': [{'ns': XSI, 'n': 'nil', 'v': cps(value)}], 'k': [], 'x': []}


def nodes(tree):
    yield tree
    for kid in tree['k']:
        yield from nodes(kid)


def mutate(r, tree, names, count=1):
    """A document near by; names: element names which may appear."""
    tree = copy.deepcopy(tree)
    for _ in range(count):
        node = r.choice(list(nodes(tree)))
        kids = node['k']
        kind = r.randrange(12)
        if kind == 0 and kids:
            kids.pop(r.randrange(len(kids)))
        elif kind == 1 and kids:
            k = r.randrange(len(kids))
            kids.insert(r.randint(0, len(kids)), copy.deepcopy(kids[k]))
        elif kind == 2 and len(kids) > 1:
            a, b = r.sample(range(len(kids)), 2)
            kids[a], kids[b] = kids[b], kids[a]
        elif kind == 3:
            node['n'] = r.choice(names)
        elif kind == 4:
            node['ns'] = r.choice(['', tree['ns'], 'urn:wrong'])
        elif kind == 5 and kids:
            kid = copy.deepcopy(r.choice(kids))
            kid['n'] = r.choice(names)
            kids.insert(r.randint(0, len(kids)), kid)
        elif kind == 6:
            node['a'].append({'ns': r.choice(['', '', 'urn:wrong']), 'n': r.choice(names), 'v': cps('1')})
            seen = {}
            node['a'] = [seen.setdefault((a['ns'], a['n']), a) for a in node['a'] if (a['ns'], a['n']) not in seen]
        elif kind == 7 and node['a']:
            node['a'].pop(r.randrange(len(node['a'])))
        elif kind == 8 and not any(a['ns'] == XSI for a in node['a']):
            node['a'].append({'ns': XSI, 'n': 'nil', 'v': cps(r.choice(['true', '1']))})
            if r.random() < 0.8:
                node['k'], node['x'] = [], []
        elif kind == 9 and not kids:
            node['x'] = cps(r.choice(['', 'x', ' ', '1', '-1', '1.50', '999999999999', 'true', '2001-02-03', '1e5', 'INF']))
        elif kind == 10 and kids:
            node['x'] = cps(r.choice(['x', ' ']))
        elif kind == 11 and not kids:
            node['k'].append({'ns': node['ns'], 'n': r.choice(names), 'a': [], 'k': [], 'x': []})
    # Only whitespace-free places are kept apart: mixed content is written with the text first.
    return tree


def all_names(m):
    names = {'zzz'}
    for t in m.types.values():
        names |= {f['tag'] for f in t.get('fields', ())}
    return sorted(names | set(m.elements))


def parse(doc):
    return etree.fromstring(doc)


def accepts(validator, element):
    """Whether the document is accepted, and the reason why not."""
    try:
        validator(element)
        return True, ''
    except (etree.DocumentInvalid, etree.XMLSyntaxError) as e:
        return False, str(e)
