"""Random class declarations, objects and documents, and their projection for spec/ClassModel.tla."""
import itertools
import keyword
import sys
import types as pytypes

from lxml import etree

import simple
from p12 import random_value
from simple import cps, proj
from soapfish import xsd

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NONE = {'t': 'none'}
COUNTER = itertools.count()
ODD_TAGS = ['class', 'from', 'my-tag', 'x.y', 'Größe', 'self', 'None', 'name', 'type', 'xml', 'render', 'fields', '_x']


class Options:
    refs = True
    attr_groups = True
    inherit = True
    override = False
    recursion = True
    defaults = False
    choice = True
    all = True
    nil = True
    facets = True
    lists = True
    attrs = True
    tags = True
    field_ns = False
    schemas = 0           # how many schemas the classes are registered in (0: none)
    string_types = ('string', 'string', 'string', 'NMTOKEN', 'anyURI')
    builtin = list(simple.BUILTIN)
    numeric_only = False
    named_simple = True
    top = 4
    grefs = False         # references to classes which are no groups
    list_weight = 2       # share of repeated elements among the fields

    def __init__(self, **kw):
        for name, value in kw.items():
            assert hasattr(self, name), name
            setattr(self, name, value)


class Model:
    def __init__(self, tns, q):
        self.types, self.tns, self.q = {}, tns, q
        self.defs = {}      # simple type name -> TypeDef
        self.classes = {}
        self.complex = []   # names of complex types which are no groups
        self.groups = []
        self.simple_classes = []
        self.module = None
        self.schema = None
        self.schemas = []
        self.root = None

    def spec(self):
        return {'types': self.types, 'tns': self.tns, 'q': self.q}

    def fields(self, name):
        t = self.types[name]
        own = {f['py'] for f in t['fields']}
        base = [f for f in self.fields(t['base']) if f['py'] not in own] if t['base'] else []
        return base + t['fields']

    def is_simple(self, name):
        return self.types[name]['kind'] == 'simple'

    def close(self):
        if self.module:
            sys.modules.pop(self.module.__name__, None)


BUILTIN_TITLES = ['Duration', 'AnyURI', 'Date', 'DateTime', 'Time', 'Boolean', 'Short', 'Byte', 'Decimal', 'Float', 'NMTOKEN', 'String', 'Int',
                  'Long', 'QName', 'Base64Binary', 'UnsignedInt']


class Generator:
    def __init__(self, r, options=None):
        self.r = r
        self.o = options or Options()
        self.used = set()
        self.titles = set()
        self.n = 0

    def name(self, prefix):
        self.n += 1
        return f'{prefix}{self.n}'

    # --- declarations ---
    def simple_type(self, m):
        """A simple type: its name in the specification and what is passed to the field."""
        r, o = self.r, self.o
        kind = r.random()
        if kind < 0.45:
            base = r.choice(o.string_types)
            t = simple.gen_string_type(r, bases=[base]) if o.facets and r.random() < 0.5 else simple.TypeDef(base)
        elif kind < 0.85:
            base = r.choice([b for b in o.builtin if b in simple.NUMERIC])
            t = simple.gen_numeric_type(r, base, pattern=False) if o.facets and r.random() < 0.5 else simple.TypeDef(base)
        else:
            t = simple.TypeDef(r.choice([b for b in o.builtin if b in simple.OTHER_TYPES] or o.string_types))
        return self.register_simple(m, t)

    def title(self, name):
        """The name of a class for a simple type, which may be the one of a built-in type."""
        r = self.r
        title = r.choice(BUILTIN_TITLES)
        if r.random() < 0.15 and title not in self.titles:
            self.titles.add(title)
            return title
        return 'S' + name[1:] + 'Type'

    def register_simple(self, m, t):
        r = self.r
        name = self.name('s')
        m.types[name] = {'kind': 'simple', 'type': t.base, 'facets': t.spec}
        m.defs[name] = t
        style = r.random()
        if not t.facets:
            passed = simple.BUILTIN[t.base] if style < 0.7 else simple.BUILTIN[t.base]()
        elif style < 0.5 or not self.o.named_simple:
            passed = simple.BUILTIN[t.base](**t.facets)
        else:
            passed = t.as_class(self.title(name))
            m.simple_classes.append(passed)
        return name, passed

    def field(self, m, kinds, targets, others=()):
        """A field and what declares it in Python; others: the other fields of the class."""
        r, o = self.r, self.o
        kind = r.choice(kinds)
        py = self.name(r.choice(['a', 'b', 'value', 'item', 'from_', 'Name', '_p']))
        tag = py
        if o.tags and r.random() < 0.4:
            tag = self.name(r.choice(ODD_TAGS))
            if r.random() < 0.5 and tag[:-len(str(self.n))] not in self.used:
                self.used.add(tag[:-len(str(self.n))])
                tag = tag[:-len(str(self.n))]
        others = [f for f in others if f['k'] not in ('ref', 'gref')]
        if o.tags and others and r.random() < 0.15:
            # The tag of one field may be the name of another one, or an attribute have the tag of an element.
            other = r.choice(others)
            if other['tag'] != other['py'] and other['py'] not in {f['tag'] for f in others}:
                tag = other['py']
                if other['tag'].isidentifier() and not keyword.iskeyword(other['tag']) and other['tag'] != 'self' and not hasattr(xsd.ComplexType, other['tag']) \
                        and other['tag'] not in {f['py'] for f in others} and r.random() < 0.6:
                    py = other['tag']
            elif (kind == 'attr') != (other['k'] == 'attr') and [f['tag'] for f in others].count(other['tag']) == 1:
                tag = other['tag']
        f = {'py': py, 'tag': tag, 'k': kind, 'type': '', 'min': 1, 'max': 1, 'nil': False, 'ns': [], 'def': NONE}
        kw = {}
        if kind == 'attr' or not targets or r.random() < 0.6:
            f['type'], passed = self.simple_type(m)
        else:
            f['type'], passed = r.choice(targets)
        if tag != py:
            kw['tagname'] = tag
        if o.nil and kind != 'attr' and r.random() < 0.3:
            f['nil'] = kw['nillable'] = True
        if o.field_ns and kind != 'attr' and r.random() < 0.25:
            kw['namespace'] = r.choice(['urn:other', 'http://x.org/y'])
            f['ns'] = [kw['namespace']]
        if kind == 'list':
            f['min'] = r.choice([0, 0, 1, 2])
            f['max'] = r.choice([-1, -1, f['min'] + 1, f['min'] + 2])
            kw.pop('tagname', None)
            kw['minOccurs'] = r.choice([None, 0]) if f['min'] == 0 else f['min']
            kw['maxOccurs'] = r.choice([None, xsd.UNBOUNDED]) if f['max'] == -1 else f['max']
            make = lambda: xsd.ListElement(passed, tag, **dict(kw, minOccurs=f['min'] and kw['minOccurs']))
        elif kind == 'attr':
            f['min'] = r.choice([0, 1])
            kw['use'] = xsd.Use.REQUIRED if f['min'] else xsd.Use.OPTIONAL
            make = lambda: xsd.Attribute(passed, **kw)
        else:
            f['min'] = kw['minOccurs'] = r.choice([0, 1, 1])
            make = lambda: xsd.Element(passed, **dict(kw, minOccurs=f['min']))
        if o.defaults and kind in ('elem', 'attr') and m.is_simple(f['type']) and f['type'] in m.defs and r.random() < 0.4:
            value = self.simple_value(m, f['type'])
            if value is not None:
                inner, text = make, value
                if kind == 'elem' or not isinstance(value, (list, dict)):
                    kw['default'] = value
                    f['_default'] = value
                make = inner
        return f, make

    def build(self, targets_extra=()):
        r, o = self.r, self.o
        m = Model(r.choice(['urn:t', 'http://example.org/ns', 'urn:a:b%20c']), r.random() < 0.5)
        module = pytypes.ModuleType(f'vm{next(COUNTER)}')
        sys.modules[module.__name__] = module
        m.module = module
        groups = []
        if o.refs and r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                name = self.name('G')
                self.complex_class(m, name, xsd.Group, ['elem', 'elem', 'list'] if o.lists else ['elem'], [], [], r.randint(1, 2))
                groups.append((name, 'group'))
                m.groups.append(name)
        if o.attr_groups and r.random() < 0.4:
            name = self.name('A')
            self.complex_class(m, name, xsd.AttributeGroup, ['attr'], [], [], r.randint(1, 2))
            groups.append((name, 'attrs'))
            m.groups.append(name)
        for _ in range(r.randint(1, o.top)):
            name = self.name('C')
            kinds = ['elem'] * 4 + ['list'] * (o.list_weight if o.lists else 0) + ['attr'] * (2 if o.attrs else 0)
            targets = [(c, self.passed_complex(m, c)) for c in m.complex]
            self.complex_class(m, name, xsd.ComplexType, kinds, targets, groups, r.choice([0, 1, 2, 3, 3, 4]) if m.complex else r.randint(1, 4))
            m.complex.append(name)
        m.root = m.complex[-1]
        for name, cls in m.classes.items():
            for f in m.types[name]['fields']:
                f.pop('_default', None)
        if o.schemas:
            self.make_schemas(m)
        return m

    def passed_complex(self, m, name):
        kind = self.r.random()
        if kind < 0.5:
            return m.classes[name]
        if kind < 0.7:
            return m.classes[name]()
        return f'{m.module.__name__}.{name}'

    def complex_class(self, m, name, pybase, kinds, targets, groups, count):
        r, o = self.r, self.o
        t = {'kind': 'complex', 'base': '', 'ind': 'sequence', 'sns': [], 'fields': []}
        attrs = {}
        base = pybase
        if pybase is xsd.ComplexType and o.inherit and m.complex and r.random() < 0.35:
            t['base'] = r.choice(m.complex)
            base = m.classes[t['base']]
            t['ind'] = m.types[t['base']]['ind']
        kind = r.random()
        if pybase is xsd.ComplexType and not t['base']:
            if o.choice and kind < 0.2:
                t['ind'] = 'choice'
                attrs['INDICATOR'] = xsd.Choice
            elif o.all and kind < 0.35:
                t['ind'] = 'all'
                attrs['INDICATOR'] = xsd.All
        if t['ind'] == 'all':
            kinds = [k for k in kinds if k != 'list']
        if t['ind'] == 'choice':
            count = max(count, 1)
        m.types[name] = t
        targets = list(targets)
        if o.recursion and pybase is xsd.ComplexType and r.random() < 0.3:
            targets += [(name, f'{m.module.__name__}.{name}')] * 2
        inherits = m.fields(t['base']) if t['base'] else []
        declared = []
        for _ in range(count):
            f, make = self.field(m, kinds, targets, [*inherits, *(f for f, _ in declared)])
            if f['type'] == name and f['k'] == 'elem':
                f['min'] = 0
            if f['type'] == name and f['k'] == 'list':
                f['min'] = 0
            declared.append((f, make))
        if o.override and t['base'] and r.random() < 0.5:
            everything = [*inherits, *(f for f, _ in declared)]
            inherited = [f for f in inherits if f['k'] not in ('ref', 'gref') and all(x is f or x['tag'] != f['py'] for x in everything)]
            if inherited:
                f, make = self.field(m, kinds, targets)
                if f['type'] != name:
                    py = r.choice(inherited)['py']
                    if f['tag'] == f['py'] and f['k'] != 'list':
                        f['tag'] = py
                    f['py'] = py
                    declared.append((f, make))
        if groups and t['ind'] == 'sequence':
            taken = {f['type'] for f in m.fields(t['base'])} if t['base'] else set()
            for g, kind in groups:
                if g not in taken and r.random() < 0.4:
                    py = self.name('g')
                    f = {'py': py, 'tag': py, 'k': 'ref', 'type': g, 'min': r.choice([0, 1]), 'max': 1, 'nil': False, 'ns': [], 'def': NONE}
                    passed = m.classes[g] if r.random() < 0.6 else m.classes[g]()
                    declared.insert(r.randint(0, len(declared)), (f, lambda p=passed, f=f: xsd.Ref(p, minOccurs=f['min'])))
        if o.grefs and t['ind'] == 'sequence' and pybase is xsd.ComplexType and m.complex and r.random() < 0.3:
            py = self.name('r')
            f = {'py': py, 'tag': self.name('x-') if r.random() < 0.4 else py, 'k': 'gref', 'type': r.choice(m.complex), 'min': r.choice([0, 1]), 'max': 1,
                 'nil': False, 'ns': [], 'def': NONE}
            passed = m.classes[f['type']] if r.random() < 0.6 else m.classes[f['type']]()
            kw = {'tagname': f['tag']} if f['tag'] != py else {}
            declared.insert(r.randint(0, len(declared)), (f, lambda p=passed, f=f: xsd.Ref(p, minOccurs=f['min'], **kw)))
            f['def'] = snap(m, m.classes[f['type']]())
        if any(f['type'] == name for f, _ in declared):
            for f, make in declared:
                if f['type'] == name:
                    self.patch_recursive(f)
        for f, make in declared:
            element = make()
            if '_default' in f:
                f['def'] = proj(f['_default'])
            attrs[f['py']] = element
            t['fields'].append(f)
        cls = type(name, (base,), attrs)
        m.classes[name] = cls
        setattr(m.module, name, cls)

    @staticmethod
    def patch_recursive(f):
        f['min'] = 0

    def make_schemas(self, m):
        form = xsd.ElementFormDefault.QUALIFIED if m.q else xsd.ElementFormDefault.UNQUALIFIED
        m.schema = xsd.Schema(
            m.tns, elementFormDefault=form, simpleTypes=m.simple_classes, location='root.xsd',
            complexTypes=[m.classes[c] for c in m.complex], groups=[m.classes[g] for g in m.groups if issubclass(m.classes[g], xsd.Group) and not issubclass(m.classes[g], xsd.AttributeGroup)],
            attributeGroups=[m.classes[g] for g in m.groups if issubclass(m.classes[g], xsd.AttributeGroup)],
            elements={'root': xsd.Element(m.classes[m.root])})
        for t in m.types.values():
            if t['kind'] == 'complex':
                t['sns'] = [m.tns]

    # --- values ---
    def simple_value(self, m, name):
        """A Python value for the simple type, None if none has been found."""
        r = self.r
        t = m.defs[name]
        for _ in range(6):
            if t.base in simple.STRING_TYPES:
                value = simple.string_candidates(r, t, 1)[0][:20]
            elif t.base in simple.INTEGER_TYPES:
                lit = simple.numeric_candidates(r, t, 1)[0]
                if '.' in lit:
                    continue
                value = int(lit)
            elif t.base in simple.NUMERIC:
                lit = simple.numeric_candidates(r, t, 1)[0]
                value = float(lit) if t.base in simple.FLOAT_TYPES else simple.decimal.Decimal(lit)
            else:
                value = random_value(r, t.base)
                if t.base in ('dateTime', 'time') and value.tzinfo is None:
                    continue
            cls = simple.BUILTIN[t.base]
            try:
                return cls(**t.facets).accept(value)
            except ValueError:
                continue
        return None

    def obj(self, m, name, depth=3, complete=0.9):
        """An object of the class; nearly complete unless it gets too deep."""
        r = self.r
        cls = m.classes[name]
        o = cls()
        fields = m.fields(name)
        only = None
        if m.types[name]['ind'] == 'choice':
            options = [f for f in fields if f['k'] in ('elem', 'list')]
            only = r.choice(options)['py'] if options else None
        for f in fields:
            if only is not None and f['k'] in ('elem', 'list') and f['py'] != only:
                continue
            if f['k'] in ('ref', 'gref'):
                if r.random() < 0.9:
                    group = self.obj(m, f['type'], depth, complete)
                    setattr(o, f['py'], group)
                elif r.random() < 0.3:
                    setattr(o, f['py'], None)
                continue
            present = r.random() < (complete if f['min'] else 0.6) or f['py'] == only
            if f['k'] == 'list':
                low, high = f['min'], f['min'] + 2 if f['max'] == -1 else f['max']
                size = r.randint(low, high) if present else r.choice([0, low])
                if depth <= 0 and not m.is_simple(f['type']):
                    size = min(size, low)
                items = [self.value(m, f, depth) for _ in range(size)]
                items = [i for i in items if i is not None]
                setattr(o, f['py'], items)
            elif present:
                value = self.value(m, f, depth)
                if value is not None:
                    setattr(o, f['py'], value)
        return o

    def value(self, m, f, depth):
        if f['nil'] and self.r.random() < 0.25:
            return xsd.NIL
        if m.is_simple(f['type']):
            return self.simple_value(m, f['type'])
        if depth <= 0 and f['min'] == 0:
            return None
        if depth < -3:
            return None
        return self.obj(m, f['type'], depth - 1)

    # --- documents ---
    def text(self, m, name, bad=0.0):
        """A text for an element or attribute of the simple type, nearly always valid."""
        r = self.r
        t = m.defs[name]
        if r.random() < bad:
            near = simple.string_candidates if t.base in simple.STRING_TYPES else simple.numeric_candidates
            if t.facets and t.base in {*simple.STRING_TYPES, *simple.NUMERIC} and r.random() < 0.6:
                return near(r, t, 1)[0][:20]
            return r.choice(['', ' ', 'x', '-1', '99999999999999999999' if t.base not in simple.FLOAT_TYPES else '999', '1.5', 'true', '2000-02-30', '0', '+7'])
        if t.base == 'boolean':
            return r.choice(['true', 'false', '1', '0'])
        value = self.simple_value(m, name)
        if value is None:
            return None
        if t.base in simple.STRING_TYPES:
            return value
        text = lexical(value, t.base)
        if t.base in simple.NUMERIC and r.random() < 0.3 and text[0] not in '-+IN':
            text = r.choice(['+', '0', '00']) + text
        if r.random() < 0.1:
            text = r.choice([' ', '\n']) + text + r.choice(['', '\t'])
        return text

    def tree(self, m, name, tag, ns, depth=3, bad=0.0, ctx=None):
        """A document of the complex type, nearly always valid."""
        r = self.r
        ctx = ns if ctx is None else ctx
        t = m.types[name]
        if t['sns']:
            ctx = t['sns'][0]
        node = {'ns': ns, 'n': tag, 'a': [], 'k': [], 'x': []}
        self.content(m, name, node, ctx, depth, bad)
        return node

    def content(self, m, name, node, ctx, depth, bad):
        r = self.r
        fields = m.fields(name)
        only = None
        if m.types[name]['ind'] == 'choice':
            options = [f for f in fields if f['k'] in ('elem', 'list')]
            only = r.choice(options)['py'] if options else None
        kids = []
        for f in fields:
            if f['k'] == 'ref':
                self.content(m, f['type'], node, ctx, depth, bad)
                continue
            if f['k'] == 'attr':
                if f['min'] or r.random() < 0.6:
                    text = self.text(m, f['type'], bad)
                    if text is not None:
                        node['a'].append({'ns': '', 'n': f['tag'], 'v': cps(text)})
                continue
            if only is not None and f['py'] != only:
                continue
            low, high = f['min'], (1 if f['k'] in ('elem', 'gref') else f['min'] + 2 if f['max'] == -1 else f['max'])
            if only is not None:
                low = max(low, 1)
            size = r.randint(low, high)
            if depth <= 0 and not m.is_simple(f['type']):
                size = f['min']
            if depth < -3:
                size = 0
            for _ in range(size):
                fns = f['ns'][0] if f['ns'] else ctx
                kid_ns = fns if m.q or f['k'] == 'gref' else ''
                if f['nil'] and r.random() < 0.25:
                    kid = {'ns': kid_ns, 'n': f['tag'], 'a': [{'ns': XSI, 'n': 'nil', 'v': cps(r.choice(['true', '1']))}], 'k': [], 'x': []}
                elif m.is_simple(f['type']):
                    text = self.text(m, f['type'], bad)
                    if text is None:
                        continue
                    kid = {'ns': kid_ns, 'n': f['tag'], 'a': [], 'k': [], 'x': cps(text)}
                    if r.random() < 0.06:
                        kid['a'].append({'ns': XSI, 'n': 'nil', 'v': cps(r.choice(['false', '0']))})
                else:
                    kid = self.tree(m, f['type'], f['tag'], kid_ns, depth - 1, bad, ctx=fns)
                kids.append(kid)
        if m.types[name]['ind'] == 'all':
            r.shuffle(kids)
        node['k'].extend(kids)


def lexical(value, base):
    """XML Schema text of a value, without the library."""
    if base == 'boolean':
        return 'true' if value else 'false'
    if base in simple.INTEGER_TYPES:
        return str(value)
    if base in simple.FLOAT_TYPES:
        value = float(value)
        return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(str(value), repr(value))
    if base == 'decimal':
        return format(simple.decimal.Decimal(str(value)), 'f')
    tz = simple.tz_minutes(getattr(value, 'tzinfo', None), value if base == 'dateTime' else None)
    zone = '' if not tz else 'Z' if tz[0] == 0 else '%s%02d:%02d' % ('-' if tz[0] < 0 else '+', abs(tz[0]) // 60, abs(tz[0]) % 60)
    day = '%04d-%02d-%02d' % (value.year, value.month, value.day) if base != 'time' else ''
    if base == 'date':
        return day + zone
    clock = '%02d:%02d:%02d' % (value.hour, value.minute, value.second) + ('.%06d' % value.microsecond if value.microsecond else '')
    return (day + 'T' + clock if base == 'dateTime' else clock) + zone


# --- projection ------------------------------------------------------------------------------------
def snap(m, value):
    if isinstance(value, xsd.ComplexType):
        name = type(value).__name__
        if name not in m.types:
            return {'t': 'other', 'repr': name}
        return {'t': 'obj', 'c': name, 'f': {f['py']: snap(m, getattr(value, f['py'], 'no such field')) for f in m.fields(name)}}
    if isinstance(value, (list, tuple)):
        return {'t': 'list', 'v': [snap(m, v) for v in value]}
    return proj(value)


def tree_of(node):
    """An lxml element as a document of the specification."""
    def split(tag):
        return tag[1:].split('}', 1) if tag[0] == '{' else ('', tag)
    text = node.text or ''
    kids = []
    for kid in node:
        if isinstance(kid.tag, str):
            kids.append(tree_of(kid))
        text += kid.tail or ''
    ns, name = split(node.tag)
    return {'ns': ns, 'n': name, 'k': kids, 'x': cps(text),
            'a': [dict(zip(('ns', 'n'), split(k)), v=cps(v)) for k, v in node.attrib.items()]}


def parse_tree(xml):
    return tree_of(etree.fromstring(xml))


# --- presentation of documents -----------------------------------------------------------------------
class Presenter:
    """One of the many ways to write a document."""

    def __init__(self, r, plain=False):
        self.r, self.plain = r, plain
        self.encoding = 'utf-8' if plain else r.choice(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig', 'str'])
        self.entities = {}
        self.allow_entities = not plain and r.random() < 0.3
        self.noise = 0 if plain else r.choice([0, 0.2, 0.5])

    def document(self, tree):
        def names(t):
            return t['n'] + ''.join(a['n'] for a in t['a']) + ''.join(map(names, t['k']))
        if not self.encodable(names(tree)):
            self.encoding = 'utf-8'
        body = self.element(tree, {'xml': 'x'}, complex_=True)
        r = self.r
        prolog = ''
        if self.entities:
            decl = ''.join(f'<!ENTITY {k} "{v}">' for k, v in self.entities.items())
            prolog = '<!DOCTYPE %s [%s]>\n' % (self.root_name, decl)
        misc = r.choice(['', '<!-- c -->', '<?pi x?>\n']) if self.noise else ''
        doc = misc + prolog + body + (r.choice(['', '\n', '<!-- end -->']) if self.noise else '')
        if self.encoding == 'str':
            return doc
        enc = 'utf-8' if self.encoding == 'utf-8-sig' else self.encoding
        decl = f'<?xml version="1.0" encoding="{enc}"?>' if enc not in ('utf-8',) or r.random() < 0.7 else ''
        return (decl + doc).encode(self.encoding, 'xmlcharrefreplace')

    def esc(self, ch, attr):
        r = self.r
        if ch in '<&' or ch == '\r' or (attr and ch in '\t\n"\'') or ch == '>':
            named = {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}
            if ch in named and r.random() < 0.7:
                return named[ch]
            return r.choice(['&#%d;', '&#x%X;']) % ord(ch)
        if ch in '\x85\u2028' or (not self.plain and r.random() < 0.04):
            return r.choice(['&#%d;', '&#x%x;']) % ord(ch)
        return ch

    def text(self, codes, attr=False):
        r = self.r
        s = ''.join(map(chr, codes))
        out, i = [], 0
        while i < len(s):
            n = r.randint(1, 4)
            piece = s[i:i + n]
            kind = r.random()
            if not attr and self.noise and kind < 0.15 and ']]>' not in piece and '\r' not in piece and '\x85' not in piece \
                    and not piece.endswith(']') and not piece.startswith('>') and self.encodable(piece):
                out.append(f'<![CDATA[{piece}]]>')
            elif not attr and self.noise and kind < 0.25:
                out.append(r.choice(['<!-- 12 -->', '<?p 3?>', '<!---->']) + ''.join(self.esc(c, attr) for c in piece))
            elif self.allow_entities and kind < 0.35 and piece.isalnum() and self.encodable(piece):
                name = f'e{len(self.entities)}'
                self.entities[name] = piece
                out.append(f'&{name};')
            else:
                out.append(''.join(self.esc(c, attr) for c in piece))
            i += n
        if not attr and self.noise and r.random() < 0.1:
            out.append('<!-- x -->')
        return ''.join(out)

    def encodable(self, s):
        try:
            s.encode('utf-8' if self.encoding == 'str' else self.encoding)
            return True
        except UnicodeEncodeError:
            return False

    def space(self):
        if self.noise and self.r.random() < self.noise:
            return self.r.choice([' ', '\n', '\n\t', '<!-- c -->', ' <?p x?> ', '<!--<a>1</a>-->', '<![CDATA[ ]]>'])
        return ''

    def element(self, tree, scope, complex_=False):
        r = self.r
        scope = dict(scope)
        decls = []

        def prefix_for(ns, attr):
            options = [p for p, u in scope.items() if u == ns and (p or not attr)]
            if options and (self.plain or r.random() < 0.85):
                return r.choice(options)
            new = [d for d, _ in decls]
            while True:
                p = r.choice(['', 'a', 'b', 'ns0', 'xsi', 'soap', 'é' if self.encodable('é') else 'e']) if not attr else r.choice(['a', 'b', 'xsi', 'q'])
                if p not in new and (p or not attr) and p not in self.busy:
                    break
            scope[p] = ns
            decls.append((p, ns))
            return p

        self.busy = set()
        if tree['ns']:
            p = prefix_for(tree['ns'], False)
            self.busy.add(p)
            name = f'{p}:{tree["n"]}' if p else tree['n']
        else:
            if scope.get(''):
                scope[''] = ''
                decls.append(('', ''))
            self.busy.add('')
            name = tree['n']
        if not hasattr(self, 'root_name'):
            self.root_name = name
        attrs = []
        for a in tree['a']:
            if a['ns']:
                p = prefix_for(a['ns'], True)
                self.busy.add(p)
                attrs.append((f'{p}:{a["n"]}', self.text(a['v'], True)))
            else:
                attrs.append((a['n'], self.text(a['v'], True)))
        attrs += [('xmlns:' + p if p else 'xmlns', u) for p, u in decls]
        if not self.plain:
            r.shuffle(attrs)
        q = '"' if self.plain else r.choice('"\'')
        sep = ' ' if self.plain else r.choice([' ', '\n  ', '\t'])
        head = '<' + name + ''.join(f'{sep}{n}={q}{v}{q}' for n, v in attrs)
        if not tree['k'] and not tree['x'] and not (complex_ and self.noise):
            return head + ('/>' if r.random() < 0.5 else f'></{name}>')
        is_nil = any(a['ns'] == XSI and a['n'] == 'nil' for a in tree['a'])
        out = [head, '>']
        if tree['k']:
            for kid in tree['k']:
                out += [self.space(), self.element(kid, scope)]
            out.append(self.space())
            if tree['x']:
                out.append(self.text(tree['x']))
        elif not is_nil or tree['x']:
            out.append(self.text(tree['x']))
        out.append(f'</{name}>')
        return ''.join(out)
