"""Random XML Schema documents (written without the library) and the models of spec/ClassModel.tla they mean."""
import copy
import itertools
import re
import sys
import types as pytypes

import simple
from lxml import etree
from model import NONE, Model
from schemas import SchemaGenerator
from simple import cps, proj, regex_text
from soapfish import xsd

XS = 'http://www.w3.org/2001/XMLSchema'
COUNTER = itertools.count()
# Names which are no Python names, keywords, or taken by something in the class or the module.
FIELD_NAMES = ['class', 'from', 'my-tag', 'x.y', 'Größe', 'self', 'None', 'name', 'type', 'xml', 'render', 'fields', '_x', 'cls', 'create',
               'instance', '__init__', '_meta', 'accept', 'parsexml', 'SCHEMA', 'INDICATOR', 'INHERITANCE', 'id', 'xsd', 'mro', 'lambda',
               'print', '__name__', 'async', 'True', 'dict', 'object', '__slots__', '_xmlelement', 'property', 'classmethod', 'a-b.c', '_', '__dict__',
               '__class__', 'value', 'Element', 'parse_xmlelement', '__eq__', '__str__']
TYPE_NAMES = ['myType', 'Type-x', 'a.b', 'été', 'class', 'string', 'list', 'T_1', 'none', 'True', 'schema', 'xsd', 'object', 'Address', 'int', '_t']


class XsdGenerator(SchemaGenerator):
    """One schema document; m.documents: list of (location, text), the first is the root."""

    def __init__(self, r, prefixes=None, **kw):
        super().__init__(r, **kw)
        self.taken = set()
        self.prefixes = prefixes

    def xml_name(self, words, prefix='n'):
        """A name which no other one is equal to, in any form Python code may need."""
        r = self.r
        for _ in range(2):
            name = r.choice(words)
            key = re.sub(r'\W', '_', name).lower().strip('_')
            if r.random() < 0.6 and key not in self.taken:
                self.taken.add(key)
                return name
        return self.name(r.choice(words + [prefix, prefix.upper()]))

    # --- writing ---
    def x(self, tag, parent=None, **attrs):
        attrs = {k: str(v) for k, v in attrs.items() if v is not None}
        node = etree.Element(f'{{{XS}}}{tag}', attrs) if parent is None else etree.SubElement(parent, f'{{{XS}}}{tag}', attrs)
        if tag not in ('enumeration', 'pattern') and self.r.random() < 0.05:
            note = etree.SubElement(node, f'{{{XS}}}annotation')
            etree.SubElement(note, f'{{{XS}}}documentation').text = "a 'note' <of> \"some\" {{ kind }}"
        return node

    def builtin(self, name):
        return f'{self.xp}:{name}' if self.xp else name

    def own(self, name):
        return f'{self.tp}:{name}' if self.tp else name

    def write_facets(self, node, spec):
        items = list(spec.items())
        if self.r.random() < 0.5:
            self.r.shuffle(items)
        for facet, value in items:
            if facet == 'enumeration':
                for v in value:
                    self.x('enumeration', node, value=''.join(map(chr, v)))
            else:
                text = regex_text(value) if facet == 'pattern' else ''.join(map(chr, value)) if isinstance(value, list) else str(value)
                self.x(facet, node, value=text)

    # --- simple types ---
    def simple_xsd(self, m, anonymous=True):
        """A simple type: its name in the model and a function which declares an element or attribute to have it."""
        r = self.r
        while True:
            t, style = self.plain_simple(), r.random()
            if t is not None:
                break
        name = self.name('s')
        m.types[name] = {'kind': 'simple', 'type': t.base, 'facets': t.spec}
        m.defs[name] = t
        if not t.spec and style < 0.8:
            return name, lambda node: node.set('type', self.builtin(t.base))
        if style < 0.5 and anonymous:
            base, spec = self.builtin(t.base), t.spec
            if len(spec) > 1 and r.random() < 0.3:
                base, spec = self.named_simple(m, t)

            def inline(node):
                restriction = self.x('restriction', self.x('simpleType', node), base=base)
                self.write_facets(restriction, spec)
            return name, inline
        base, spec = self.builtin(t.base), t.spec
        if len(spec) > 1 and r.random() < 0.4:
            base, spec = self.named_simple(m, t)
        known = self.declare_simple(m, base, spec)
        return name, lambda node: node.set('type', self.own(known))

    def plain_simple(self):
        from schemas import consistent
        r, o = self.r, self.o
        kind = r.random()
        if kind < 0.4:
            t = simple.gen_string_type(r, bases=['string'], gen_regex=simple.gen_plain_regex) if r.random() < 0.7 else simple.TypeDef('string')
        elif kind < 0.8:
            base = r.choice([b for b in o.builtin if b in simple.NUMERIC])
            t = simple.gen_numeric_type(r, base, both=False) if r.random() < 0.6 else simple.TypeDef(base)
        else:
            t = simple.TypeDef(r.choice([b for b in o.builtin if b in simple.OTHER_TYPES]))
        return t if consistent(t) else None

    def named_simple(self, m, t):
        """A named type with some of the facets of the type, to derive it from: the base and the remaining facets."""
        r = self.r
        items = list(t.spec.items())
        cut = r.randint(1, len(items) - 1)
        first, rest = dict(items[:cut]), dict(items[cut:])
        base = simple.BUILTIN[t.base](**{k: t.facets[k] for k in first})
        values = [''.join(map(chr, v)) for k, v in rest.items() if k.endswith('clusive')] + [''.join(map(chr, v)) for v in rest.get('enumeration', [])]
        if not all(simple.call(base.accept, v)[0] for v in values):
            return self.builtin(t.base), t.spec
        return self.own(self.declare_simple(m, self.builtin(t.base), first)), rest

    def declare_simple(self, m, base, spec):
        name = self.xml_name(TYPE_NAMES, 'st')
        node = self.x('simpleType', name=name)
        self.write_facets(self.x('restriction', node, base=base), spec)
        self.declare('simpleType', node)
        return name

    def declare(self, kind, node):
        self.declarations.append((kind, node))

    # --- complex types ---
    def new_type(self, m, name, ind='sequence', base=''):
        m.types[name] = {'kind': 'complex', 'base': base, 'ind': ind, 'sns': [m.tns], 'fields': []}
        return m.types[name]

    def new_field(self, m, t, names, kind):
        r = self.r
        for _ in range(50):
            tag = r.choice(FIELD_NAMES) if r.random() < 0.5 else self.name(r.choice(['a', 'b', 'value', 'item', 'Name', 'x-', 'y.']))
            key = re.sub(r'\W', '_', tag).strip('_')
            if not self.free(names, key):
                continue
            names.add(key)
            return {'py': self.name('f'), 'tag': tag, 'k': kind, 'type': '', 'min': 1, 'max': 1, 'nil': False, 'ns': [], 'def': NONE}
        raise AssertionError

    def free(self, names, key):
        return key not in names

    def attribute(self, m, t, names, parent):
        r = self.r
        f = self.new_field(m, t, names, 'attr')
        f['min'] = r.choice([0, 1])
        node = self.x('attribute', parent, name=f['tag'], use='required' if f['min'] else r.choice([None, 'optional']))
        f['type'], declare = self.simple_xsd(m)
        declare(node)
        return f

    def element(self, m, t, names, parent, name, depth):
        """An element of the complex type `name`."""
        r = self.r
        ind = t['ind']
        kind = 'list' if ind != 'all' and r.random() < 0.35 else 'elem'
        f = self.new_field(m, t, names, kind)
        node = self.x('element', parent, name=f['tag'])
        if kind == 'list':
            f['min'] = r.choice([0, 0, 1, 1, 2])
            f['max'] = r.choice([-1, max(f['min'], 1) + 1, max(f['min'], 2)])
            node.set('maxOccurs', 'unbounded' if f['max'] == -1 else str(f['max']))
            if f['min'] != 1 or r.random() < 0.5:
                node.set('minOccurs', str(f['min']))
        else:
            f['min'] = r.choice([0, 1, 1])
            if f['min'] == 0 or r.random() < 0.3:
                node.set('minOccurs', str(f['min']))
            if r.random() < 0.2:
                node.set('maxOccurs', '1')
        if r.random() < 0.25:
            f['nil'] = True
        if f['nil'] or r.random() < 0.1:
            node.set('nillable', r.choice(['true', '1'] if f['nil'] else ['false', '0']))
        choice = r.random()
        if choice < 0.5:
            f['type'], declare = self.simple_xsd(m)
            declare(node)
        elif choice < 0.65 and depth < 2:
            f['type'] = self.name('anon')
            self.complex_content(m, f['type'], self.x('complexType', node), depth + 1)
        else:
            later = r.random() < 0.4
            target = r.choice(self.planned if later else m.complex or self.planned)
            f['type'] = target
            node.set('type', self.own(target))
            if target not in m.types or target == name:  # to allow for documents which end
                f['min'] = 0
                node.set('minOccurs', '0')
        return f

    def complex_content(self, m, name, node, depth=0, base=None):
        """The content of a complex type, into the model and into the XML element."""
        r = self.r
        if base:
            t = self.new_type(m, name, 'sequence', base)
            node = self.x('complexContent', node)
            node = self.x('extension', node, base=self.own(base))
        else:
            t = self.new_type(m, name, r.choice(['sequence'] * 4 + ['choice', 'all']))
        names = {re.sub(r'\W', '_', f['tag']).strip('_') for f in m.fields(name)}
        elements = []
        count = r.choice([0, 1, 2, 3, 4]) if t['ind'] == 'sequence' else r.randint(1, 4)
        groups = r.random() < 0.15 and self.o.attr_groups
        if count or r.random() < 0.5:
            parent = self.x(t['ind'], node)
            for _ in range(count):
                if self.referable and t['ind'] == 'sequence' and r.random() < 0.1:
                    f = self.reference(m, names, parent)
                    if f:
                        elements.append(f)
                        continue
                elements.append(self.element(m, t, names, parent, name, depth))
        attributes = [self.attribute(m, t, names, node) for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]
        if groups:
            attributes += self.attribute_group(m, t, names, node)
        t['fields'] = attributes + elements

    def reference(self, m, names, parent):
        """A reference to a global element of anonymous complex type."""
        el = self.r.choice(self.referable)
        key = re.sub(r'\W', '_', el['n']).strip('_')
        if key in names:
            return None
        names.add(key)
        self.x('element', parent, ref=self.own(el['n']))
        self.grouped = True
        return {'py': self.name('f'), 'tag': el['n'], 'k': 'elem', 'type': el['type'], 'min': 1, 'max': 1, 'nil': False, 'ns': [], 'def': NONE}

    def attribute_group(self, m, t, names, node):
        group = self.xml_name(['attrs', 'common'], 'ag')
        key = re.sub(r'\W', '_', group)
        if key in names:
            return []
        names.add(key)
        decl = self.x('attributeGroup', name=group)
        fields = [self.attribute(m, t, names, decl) for _ in range(self.r.randint(1, 3))]
        self.declare('attributeGroup', decl)
        self.x('attributeGroup', node, ref=self.own(group))
        self.grouped = True
        return fields

    # --- schema ---
    def build_xsd(self):
        r = self.r
        m = Model(r.choice(['urn:t', 'http://example.org/ns', 'urn:a:b%20c', "urn:it's"]), r.random() < 0.5)
        self.declarations, self.planned, self.referable, self.grouped = [], [], [], False
        self.xp, self.tp = self.prefixes or r.choice([('xs', 'tns'), ('xsd', 't'), ('', 'tns'), ('xs', ''), ('a-b', 'x.y')])
        m.elements = {}
        self.planned = [self.xml_name(TYPE_NAMES, 'ct') for _ in range(r.randint(1, 4))]
        if m.q and r.random() < 0.3:
            el = {'n': self.xml_name(['person', 'my-ref', 'x.ref'], 'ref'), 'type': self.name('anon'), 'nil': False}
            node = self.x('element', name=el['n'])
            planned, self.planned = self.planned, []
            self.complex_simple(m, el['type'], self.x('complexType', node))
            self.planned = planned
            self.declare('element', node)
            m.elements[el['n']] = el
            self.referable = []  # references to elements are not implemented by the library
        for name in self.planned:
            bases = [c for c in m.complex if m.types[c]['ind'] == 'sequence']
            base = r.choice(bases) if bases and r.random() < 0.4 else None
            node = self.x('complexType', name=name)
            self.complex_content(m, name, node, base=base)
            m.complex.append(name)
            self.declare('complexType', node)
        for _ in range(r.randint(1, 3)):
            el = {'n': self.xml_name(['root', 'El', 'my-el', 'e.x', 'class', 'None', 'Schema'], 'el'), 'type': '', 'nil': r.random() < 0.2}
            if el['n'] in m.elements:
                continue
            node = self.x('element', name=el['n'], nillable='true' if el['nil'] else None)
            kind = r.random()
            if kind < 0.5:
                el['type'] = r.choice(m.complex)
                node.set('type', self.own(el['type']))
            elif kind < 0.8:
                el['type'] = self.name('anon')
                self.complex_content(m, el['type'], self.x('complexType', node), base=r.choice(bases) if (bases := [c for c in m.complex if m.types[c]['ind'] == 'sequence']) and r.random() < 0.2 else None)
            else:
                el['type'], declare = self.simple_xsd(m)
                declare(node)
            self.declare('element', node)
            m.elements[el['n']] = el
        m.substitutes = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            heads = [n for n, el in m.elements.items() if el['type'] in m.complex]
            el = {'n': self.xml_name(['sub', 'my-sub', 'El'], 'sub'), 'type': '', 'nil': r.random() < 0.2}
            if not heads or el['n'] in m.elements:
                continue
            head = r.choice(heads)
            el['type'] = m.elements[head]['type']
            self.declare('element', self.x('element', name=el['n'], type=self.own(el['type']), nillable='true' if el['nil'] else None,
                                           substitutionGroup=self.own(head)))
            m.elements[el['n']] = el
            m.substitutes.append({'n': el['n'], 'head': m.tns + ' ' + head})
        m.root = m.complex[-1]
        m.grouped = self.grouped
        self.write(m)
        return m

    def complex_simple(self, m, name, node):
        t = self.new_type(m, name)
        names = set()
        parent = self.x('sequence', node)
        for _ in range(self.r.randint(0, 2)):
            f = self.new_field(m, t, names, 'elem')
            f['type'], declare = self.simple_xsd(m)
            declare(self.x('element', parent, name=f['tag']))
            t['fields'].append(f)

    def schema_node(self, m, tns=True):
        nsmap = {self.xp or None: XS, self.tp or None: m.tns}
        node = etree.Element(f'{{{XS}}}schema', nsmap=nsmap)
        if tns:
            node.set('targetNamespace', m.tns)
        if m.q or self.r.random() < 0.5:
            node.set('elementFormDefault', 'qualified' if m.q else 'unqualified')
        return node

    def write(self, m):
        """The schema as one document, declarations in any order."""
        root = self.schema_node(m)
        self.r.shuffle(self.declarations)
        for _, node in self.declarations:
            root.append(node)
        m.documents = [('root.xsd', text_of(self.r, root))]


def text_of(r, root):
    encoding = r.choice(['UTF-8', 'UTF-8', 'UTF-8', 'UTF-16', 'ISO-8859-15', 'US-ASCII'])
    return etree.tostring(root, pretty_print=r.random() < 0.8, xml_declaration=encoding != 'UTF-8' or r.random() < 0.7, encoding=encoding)


# --- generated code --------------------------------------------------------------------------------
class Generated:
    """A generated module."""

    def __init__(self, code):
        self.code = code
        self.name = f'gen{next(COUNTER)}'
        self.module = pytypes.ModuleType(self.name)

    def load(self):
        sys.modules[self.name] = self.module
        exec(compile(self.code, self.name, 'exec', dont_inherit=True), self.module.__dict__)
        return self.module

    def schemas(self, tns=None):
        found = []
        for v in vars(self.module).values():
            if isinstance(v, xsd.Schema) and not any(v is x for x in found) and tns in (None, v.targetNamespace):
                found.append(v)
        return found

    def close(self):
        sys.modules.pop(self.name, None)


def document_class(schema, name):
    """A class whose only field is the global element of the schema."""
    element = copy.copy(schema.elements[name])
    element.tagname = name
    return type('Doc', (xsd.Document,), {'NAMESPACE': schema.targetNamespace, 'Root': element})


def members(value):
    """What holds the fields of an object: (is an attribute, tag) -> (owner, name)."""
    found = {}
    for cls in reversed(type(value).__mro__):
        for py, item in vars(cls).items():
            if isinstance(item, xsd.Ref) and isinstance(getattr(value, py, None), xsd.AttributeGroup):
                found.update(members(getattr(value, py)))
            elif isinstance(item, xsd.Element):
                found[isinstance(item, xsd.Attribute), item.tagname or py] = value, py
    return found


def snap_as(m, t, value):
    """An object of a generated class as an object of the type of the model."""
    if isinstance(value, xsd.ComplexType) and not m.is_simple(t):
        held = members(value)
        fields = {}
        for f in m.fields(t):
            owner = held.get((f['k'] == 'attr', f['tag']))
            if owner is None:
                fields[f['py']] = {'t': 'other', 'repr': 'no such field'}
                continue
            v = getattr(*owner)
            if f['k'] == 'list':
                fields[f['py']] = {'t': 'list', 'v': [snap_as(m, f['type'], x) for x in v]} if isinstance(v, (list, tuple)) else proj(v)
            else:
                fields[f['py']] = snap_as(m, f['type'], v)
        return {'t': 'obj', 'c': t, 'f': fields}
    if isinstance(value, (list, tuple)):
        return {'t': 'list', 'v': []}
    return proj(value)
