"""Objects of declared classes as the heap of spec/Objects.tla, and operations on them."""
import copy

import p10
import simple
from model import NONE, Presenter, snap
from p13 import FORMS
from simple import call, proj
from soapfish import xsd
from vlib import parallel, rng

EMPTY_TREE = {'ns': '', 'n': '', 'a': [], 'k': [], 'x': []}


class World:
    def __init__(self, m):
        self.m, self.objs, self.ids, self.events, self.stale = m, [], {}, [], []

    # --- projection ---
    def add(self, o):
        if id(o) in self.ids:
            return self.ids[id(o)]
        self.objs.append(o)
        self.ids[id(o)] = len(self.objs)
        for f in self.m.fields(type(o).__name__):
            v = getattr(o, f['py'], None)
            for x in v if isinstance(v, (list, tuple)) else [v]:
                if isinstance(x, xsd.ComplexType) and type(x).__name__ in self.m.types:
                    self.add(x)
        return self.ids[id(o)]

    def value(self, v):
        if isinstance(v, xsd.ComplexType) and type(v).__name__ in self.m.types:
            return {'t': 'ref', 'id': self.add(v)}
        if isinstance(v, (list, tuple)):
            return {'t': 'list', 'v': [self.value(x) for x in v]}
        return proj(v)

    def heap(self):
        result, k = [], 0
        while k < len(self.objs):
            o = self.objs[k]
            result.append({'c': type(o).__name__,
                           'f': {f['py']: self.value(getattr(o, f['py'], 'no such field')) for f in self.m.fields(type(o).__name__)}})
            k += 1
        return result

    def record(self, action, payload=None, **e):
        """Do the operation on the objects and note what it did."""
        event = dict({'op': '', 'c': '', 'kw': [], 'tree': EMPTY_TREE, 'id': 0, 'py': '', 'g': NONE, 'items': [], 'lo': 0, 'hi': 0}, **e)
        ok, exc, result = call(action)
        if ok and event['op'] in ('new', 'parse', 'copy'):
            self.add(result)
        if event['op'] == 'stale':
            ok = True
        event.update(ok=ok, exc=exc, after=self.heap(), args=repr(payload)[:300])
        self.events.append(event)
        return ok

    # --- operations ---
    def new(self, name, kw):
        """kw: list of (field, python value, given)"""
        return self.record(lambda: self.m.classes[name](**{py: v for py, v, _ in kw}), kw, op='new', c=name,
                           kw=[{'py': py, 'g': g} for py, _, g in kw])

    def parse(self, name, tree, doc):
        return self.record(lambda: self.m.classes[name].parsexml(doc), doc, op='parse', c=name, tree=tree)

    def copy(self, k):
        return self.record(lambda: copy.deepcopy(self.objs[k]), op='copy', id=k + 1)

    def render(self, k, q=True):
        return self.record(lambda: self.objs[k].xml('root', namespace=self.m.tns, elementFormDefault=FORMS[q]), op='render', id=k + 1)

    def set(self, k, py, value, g):
        return self.record(lambda: setattr(self.objs[k], py, value), (py, value), op='set', id=k + 1, py=py, g=g)

    def list_op(self, k, py, op, values=(), gs=(), lo=0, hi=0, how=0):
        o = self.objs[k]
        items = getattr(o, py)
        n = len(items)
        values = list(values)

        def iadd():
            o_list = getattr(o, py)
            o_list += values
            setattr(o, py, o_list)

        def imul():
            o_list = getattr(o, py)
            o_list *= lo
            setattr(o, py, o_list)

        actions = {
            'append': lambda: items.append(values[0]),
            'extend': lambda: items.extend((list, tuple, iter)[how % 3](values)),
            'iadd': iadd, 'imul': imul,
            'insert': lambda: items.insert(lo if how % 2 or lo == n else lo - n, values[0]),
            'setitem': lambda: items.__setitem__(lo if how % 2 else lo - n, values[0]),
            'slice': lambda: items.__setitem__(slice(lo, hi), values),
            'step': lambda: items.__setitem__(slice(None, None, 2), values),
            'delete': lambda: items.__delitem__(slice(lo, hi)),
            'pop': lambda: items.pop(lo if how % 2 else lo - n),
            'clear': lambda: items.clear(),
            'reverse': lambda: items.reverse(),
        }
        return self.record(actions[op], (op, values, lo, hi), op=op, id=k + 1, py=py, items=list(gs), lo=lo, hi=hi)


def reaches(start, target):
    todo, seen = [start], set()
    while todo:
        o = todo.pop()
        if o is target:
            return True
        if id(o) in seen or not isinstance(o, xsd.ComplexType):
            continue
        seen.add(id(o))
        for v in vars(o).values():
            todo += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, xsd.ComplexType)]
    return False


def twin(r, cls):
    """An object of another class with the same fields (and maybe more), maybe of the same name."""
    fields = {name: copy.copy(f) for c in reversed(cls.__mro__) for name, f in vars(c).items() if isinstance(f, xsd.Element)}
    if r.random() < 0.3:
        fields['one_more'] = xsd.Element(xsd.String)
    base = xsd.Group if issubclass(cls, xsd.Group) else xsd.ComplexType
    return type(r.choice([cls.__name__, 'Twin']), (base,), fields)()


class Driver:
    """Random histories."""

    def __init__(self, r, g, m):
        self.r, self.g, self.m, self.w = r, g, m, World(m)

    def item(self, f, owner, in_list=False):
        """A value for a field or an item, and what it is for the specification."""
        r, w = self.r, self.w
        kind = r.random()
        if kind < 0.08:
            return xsd.NIL, {'t': 'nil'}
        if kind < 0.14 and not in_list:
            return None, {'t': 'none'}
        if kind < 0.17 and not self.m.is_simple(f['type']):
            return twin(r, self.m.classes[f['type']]), {'t': 'val', 'py': 'str', 'lit': simple.cps('twin')}
        if kind < 0.2 and w.objs or not self.m.is_simple(f['type']):
            options = [k for k, o in enumerate(w.objs) if owner is None or not reaches(o, owner)]
            good = [k for k in options if isinstance(w.objs[k], self.m.classes[f['type']])] if not self.m.is_simple(f['type']) else []
            if good and r.random() < 0.8:
                options = good
            if options:
                k = r.choice(options)
                return w.objs[k], {'t': 'ref', 'id': k + 1}
            return 'no object', {'t': 'val', 'py': 'str', 'lit': simple.cps('no object')}
        t = self.m.defs[f['type']]
        for _ in range(20):
            value, g = (p10.give_string if t.base in simple.STRING_TYPES else p10.give_number)(r, t)
            if not (in_list and value is None):
                break
        if value is not None and value.__class__ is str and not set(value) <= p10.XML_OK | {'\U0001f600'}:
            value, g = 'x', {'py': 'str' if t.base in simple.STRING_TYPES else 'text', 'lit': simple.cps('x')}
        return value, dict({'t': 'val', 'lit': []}, **g) if value is not None else {'t': 'none'}

    def whole(self, f, owner):
        r = self.r
        if f['k'] != 'list':
            if r.random() < 0.04:
                return ['x'], {'t': 'seq', 'v': []}
            return self.item(f, owner)
        kind = r.random()
        if kind < 0.08:
            return None, {'t': 'none'}
        if kind < 0.14:
            return 'ab', {'t': 'val', 'py': 'str', 'lit': simple.cps('ab')}
        same = [o for o in self.w.objs if isinstance(getattr(o, f['py'], None), list)
                and any(f2 is f for f2 in self.m.fields(type(o).__name__))]
        if kind < 0.3 and same:
            o = r.choice(same)
            items = getattr(o, f['py'])
            if owner is None or not any(reaches(x, owner) for x in items):
                return items, {'t': 'seq', 'v': [self.held(x) for x in items]}
        pairs = [self.item(f, owner, True) for _ in range(r.randint(0, 3))]
        return r.choice([list, tuple])(v for v, _ in pairs), {'t': 'seq', 'v': [g for _, g in pairs]}

    def held(self, x):
        if isinstance(x, xsd.ComplexType):
            return {'t': 'ref', 'id': self.w.ids[id(x)]}
        return {'t': 'held', 'v': proj(x)}

    def step(self):
        r, w, m = self.r, self.w, self.m
        kind = r.random()
        if not w.objs or (kind < 0.16 and len(w.objs) < 12):
            name = r.choice(m.complex + m.groups[:1])
            fields = m.fields(name)
            kw = []
            for f in r.sample(fields, min(len(fields), r.choice([0, 0, 1, 2, 3]))):
                kw.append((f['py'], *self.whole(f, None)))
            if r.random() < 0.06:
                kw.append(('no_such_field', r.choice([1, None, '', xsd.NIL, []]), {'t': 'none'}))
            w.new(name, kw)
            return
        if kind < 0.24 and len(w.objs) < 14:
            name = r.choice(m.complex)
            tree = self.g.tree(m, name, 'root', m.tns, depth=1, bad=r.choice([0, 0, 0.05]))
            w.parse(name, tree, Presenter(r, plain=True).document(tree))
            return
        k = r.randrange(len(w.objs))
        o = w.objs[k]
        if kind < 0.27 and len(w.objs) < 14:
            w.copy(k)
            return
        if kind < 0.33:
            w.render(k, r.random() < 0.5)
            return
        fields = m.fields(type(o).__name__)
        if not fields or kind < 0.36:
            w.set(k, r.choice(['no_such_field', 'SCHEMA', 'foo', '_meta']), r.choice([1, None, xsd.NIL, []]), {'t': 'none'})
            return
        f = r.choice(fields)
        if f['k'] != 'list' or kind < 0.5:
            old = getattr(o, f['py'])
            value, g = self.whole(f, o)
            if w.set(k, f['py'], value, g) and f['k'] == 'list' and isinstance(old, list):
                w.stale.append(old)
            if w.stale and r.random() < 0.5:
                lst = r.choice(w.stale)
                w.record(lambda: r.choice([lst.clear, lst.reverse, lambda: lst.append('stale'), lambda: lst.extend(list(lst))])(), op='stale')
            return
        items = getattr(o, f['py'])
        n = len(items)
        op = r.choice(['append', 'append', 'extend', 'iadd', 'insert', 'setitem', 'slice', 'step', 'delete', 'pop', 'clear', 'reverse', 'imul'])
        if op in ('setitem', 'pop') and n == 0:
            op = 'append'
        lo = hi = 0
        count = {'append': 1, 'insert': 1, 'setitem': 1, 'step': (n + 1) // 2 + r.choice([0, 0, 0, 1])}.get(op, r.randint(0, 3))
        if op in ('delete', 'pop', 'clear', 'reverse', 'imul'):
            count = 0
        pairs = [self.item(f, o, True) for _ in range(count)]
        if op in ('extend', 'iadd') and r.random() < 0.15:
            pairs = [(x, self.held(x)) for x in items]
        if op == 'insert':
            lo = r.randint(0, n)
        elif op in ('setitem', 'pop'):
            lo = r.randrange(n)
            hi = lo + 1
        elif op in ('slice', 'delete'):
            lo, hi = sorted([r.randint(0, n), r.randint(0, n)])
        elif op == 'imul':
            lo = r.randint(0, 2)
        w.list_op(k, f['py'], op, [v for v, _ in pairs], [g for _, g in pairs], lo, hi, r.randint(0, 5))


def space_model(spec):
    """The classes of spec/ObjectSpace.tla."""
    from model import Model
    m = Model(spec['tns'], spec['q'])
    m.types = spec['types']
    txt, num = xsd.String(maxLength=2), xsd.Int(minInclusive=0)
    import sys
    import types
    module = types.ModuleType('vmspace')
    sys.modules['vmspace'] = m.module = module
    g = type('G', (xsd.Group,), {'g1': xsd.Element(txt)})
    a = type('A', (xsd.ComplexType,), {
        'n': xsd.Attribute(num, use=xsd.Use.OPTIONAL), 's': xsd.Element(txt, nillable=True, default='x'),
        'l': xsd.ListElement(num, 'l', minOccurs=1, maxOccurs=2, nillable=True), 'g': xsd.Ref(g, minOccurs=0),
        'child': xsd.Element('vmspace.A', minOccurs=0)})
    module.A = a
    b = type('B', (a,), {'cs': xsd.ListElement(a, 'cs', minOccurs=0, maxOccurs=1)})
    m.classes = {'G': g, 'A': a, 'B': b}
    return m


def python_given(w, g):
    if g['t'] == 'ref':
        return w.objs[g['id'] - 1]
    if g['t'] == 'seq':
        return [python_given(w, x) for x in g['v']]
    if g['t'] == 'nil':
        return xsd.NIL
    if g['t'] == 'none':
        return None
    text = ''.join(map(chr, g['lit']))
    return int(text) if g['py'] == 'int' else 1 if g['py'] == 'bad' else text


def replay_op(r, w, e):
    k = e['id'] - 1
    if e['op'] == 'new':
        w.new(e['c'], [(x['py'], python_given(w, x['g']), x['g']) for x in e['kw']])
    elif e['op'] == 'parse':
        w.parse(e['c'], e['tree'], Presenter(r, plain=True).document(e['tree']))
    elif e['op'] == 'render':
        w.render(k, False)
    elif e['op'] == 'set':
        w.set(k, e['py'], python_given(w, e['g']), e['g'])
    else:
        w.list_op(k, e['py'], e['op'], [python_given(w, g) for g in e['items']], e['items'], e['lo'], e['hi'], r.randint(0, 5))


class QuietWorld(World):
    """Notes only the objects after the last two operations."""
    keep = True

    def heap(self):
        return super().heap() if self.keep else []


def explore(check, depth, objects):
    """Replay one history for each transition of spec/ObjectSpace.tla; the last step of each is judged by ObjectTrace."""
    reports = check.explore('ObjectSpace', 'SPECIFICATION Spec\nCONSTANTS Depth = %d\nMaxObjects = %d\nVIEW Seen\n'
                            'CHECK_DEADLOCK FALSE\nINVARIANT Typed\nPROPERTIES OneObject Kept\n' % (depth, objects), workers=1)
    spec = next(x['model'] for x in reports if 'model' in x)
    histories = [x['hist'] for x in reports if 'hist' in x]
    if len(histories) < 1000:
        raise RuntimeError('the exploration is incomplete')
    size = 3000
    parts = parallel(replay_histories, [(spec, histories[k:k + size], k) for k in range(0, len(histories), size)])
    return [case for cases in parts for case in cases], len(histories)


def replay_histories(spec, histories, first):
    r = rng(f'replay/{first}')
    m = space_model(spec)
    cases, batch = [], []
    for hist in histories:
        w = QuietWorld(m)
        for n, e in enumerate(hist):
            w.keep = n >= len(hist) - 2
            # identities have to be known after each operation
            for o in list(w.objs):
                w.add(o)
            replay_op(r, w, e)
        last = w.events[-1]
        before = w.events[-2]['after'] if len(w.events) > 1 else []
        batch += [{'op': 'heap', 'after': before}, dict(last, history=[x['op'] for x in hist])]
        if len(batch) >= 400:
            cases.append({'model': spec, 'events': batch})
            batch = []
    if batch:
        cases.append({'model': spec, 'events': batch})
    m.close()
    return cases


def only(pid, check, cases, name):
    """Validate the cases, but count only what is about the property."""
    other = []

    class Filter:
        def append(self, item):
            what, case = item
            (mine if pid in what or not isinstance(case, dict) or 'report' not in case else other).append(item)
    mine = check.violations
    check.violations = Filter()
    try:
        check.validate('ObjectTrace', cases, name=name, timeout=1500)
    finally:
        check.violations = mine
    check.parts[name]['reports about other properties'] = check.parts[name].get('reports about other properties', 0) + len(other)
