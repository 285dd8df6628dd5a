"""P20: generated code defines everything once and before it is used (spec/Codegen.tla, CodegenTrace.tla, CodegenSpace.tla)."""
import json
import os

import vlib
from p18 import limited
from worlds import BUILTINS, World, define, generate as generate_code, location, offer, relative

NAMESPACES = ['urn:a', 'http://example.org/b', 'urn:c:d', 'http://x.org/e/', 'urn:f', 'urn:g']


class Maker:
    """Random worlds."""

    def __init__(self, r):
        self.r, self.n, self.places = r, 0, []

    def name(self, prefix='t'):
        self.n += 1
        return f'{prefix}{self.n}'

    def fill(self, docs, closed, live):
        """Types and elements for all schemas: closed[x]: the schemas whose types schema x sees, x: (doc, number)."""
        r = self.r
        every = [(d, k) for d, doc in enumerate(docs) for k in range(len(doc['schemas']))]
        for x in every:
            s = docs[x[0]]['schemas'][x[1]]
            s['simple'] = [{'n': self.name(), 'base': '', 'builtin': r.choice(BUILTINS)} for _ in range(r.choice([0, 0, 1, 2, 3]))]
            s['complex'] = [{'n': self.name(), 'base': '', 'fields': []} for _ in range(r.choice([1, 1, 2, 3, 4]))]
        for x in every:
            s = docs[x[0]]['schemas'][x[1]]
            seen = sorted(closed[x])
            sub = [docs[d]['schemas'][k] for d, k in seen]
            for part in ('simple', 'complex'):
                ranked = r.sample(s[part], len(s[part]))
                for j, t in enumerate(ranked):
                    bases = [o['n'] for o in ranked[:j]] + [o['n'] for o_ in sub if o_ is not s for o in o_[part]]
                    if bases and r.random() < 0.5:
                        t['base'] = r.choice(bases)
            types = [o['n'] for o_ in [s, *sub] for part in ('simple', 'complex') for o in o_[part]]
            if r.random() < 0.5:
                # What an included document may use, too: the types of the ones which include it.
                types += [o['n'] for d, k in every if x in closed[d, k] and (d, k) in live and docs[d]['schemas'][k]['ns'] == s['ns']
                          for o in docs[d]['schemas'][k]['complex']]

            def fields():
                return [{'n': self.name('f'), 't': r.choice(types) if r.random() < 0.6 else 'xs:' + r.choice(BUILTINS)} for _ in range(r.choice([0, 1, 1, 2, 3]))]
            for t in s['complex']:
                t['fields'] = fields()
            s['elements'] = []
            for _ in range(r.choice([0, 1, 1, 2])):
                if r.random() < 0.4:
                    s['elements'].append({'n': self.name('e'), 't': '', 'anon': True, 'fields': fields()})
                else:
                    s['elements'].append({'n': self.name('e'), 't': r.choice(types), 'anon': False, 'fields': []})
        for x in every:
            self.list(docs[x[0]]['schemas'][x[1]])

    def list(self, s):
        listing = [(part, t) for part in ('simple', 'complex', 'elements') for t in s[part]]
        self.r.shuffle(listing)
        s['listing'] = listing
        self.r.shuffle(s['refs'])

    def directory(self, h=''):
        r = self.r
        return [r.choice(['a', 'b', 'c']) for _ in range(r.choice([0, 0, 1, 1, 2]))]

    def place(self, number, layout):
        r = self.r
        if layout == 'flat':
            return location('', [f'd{number}.xsd'])
        h = r.choice({'dirs': [''], 'urls': ['h1', 'h1', 'h2'], 'mixed': ['', '', 'h1', 'h2']}[layout])
        if r.random() < 0.35:  # Files in different folders may have the same name.
            loc = location(h, [*self.directory(), 'x.xsd'])
            if self.places and r.random() < 0.5:  # Maybe the whole path is the same below some folder.
                path = r.choice(self.places)['p']
                loc = location(h, path[1:] if len(path) > 1 and r.random() < 0.5 else [r.choice('abc'), *path])
            if loc not in self.places:
                self.places.append(loc)
                return loc
        name = r.choice([f'd{number}.xsd', f'x{number}', f'd.{number}.XSD', f'a-{number}_b.xsd'])
        q = r.choice(['', '', '', f'xsd={number}', f'v={number}&w=../e']) if h else ''
        return location(h, [*self.directory(h), name], q)

    def documents(self, layout, cyclic, count=None):
        """Schema documents: kinds of edges follow from namespaces; the edges of the same namespaces are includes."""
        r = self.r
        n = count or r.choice([1, 2, 3, 3, 4, 5, 6])
        spaces = r.sample(NAMESPACES, r.choice([1, 2, 3, 4]))
        docs = []
        for k in range(n):
            ns = r.choice(spaces)
            docs.append({'kind': 'xsd', 'loc': self.place(k, layout), 'refs': [],
                         'schemas': [{'ns': ns, 'refs': []}]})
        if layout == 'mixed' and r.random() < 0.7:
            docs[0]['loc'] = location('', [*self.directory(), 'd0.xsd'])
        edges = set()
        for a in range(n):
            for b in range(n):
                if a == b or (docs[a]['loc']['h'] and not docs[b]['loc']['h']):
                    continue
                if (a < b and r.random() < 0.5) or (a > b and cyclic and r.random() < 0.3):
                    edges.add((a, b))
        for b in range(1, n):
            if not any((a, b) in edges for a in range(b)):
                able = [a for a in range(b) if not (docs[a]['loc']['h'] and not docs[b]['loc']['h'])]
                if able:
                    edges.add((r.choice(able), b))
        # An included document may have no namespace of its own: the one of whoever includes it.
        for b in range(1, n):
            into = [a for a, c in edges if c == b]
            if into and all(docs[a]['schemas'][0]['ns'] == docs[b]['schemas'][0]['ns'] for a in into) and \
                    not any(a == b for a, _ in edges) and r.random() < 0.3:
                docs[b]['chameleon'] = True
        self.refer(docs, edges)
        return docs, edges

    def refer(self, docs, edges):
        r = self.r
        for a, b in sorted(edges):
            s, t = docs[a]['schemas'][0], docs[b]['schemas'][0]
            at = [relative(r, docs[a]['loc'], docs[b]['loc'])]
            s['refs'].append({'how': 'include' if s['ns'] == t['ns'] else 'import', 'ns': '' if s['ns'] == t['ns'] else t['ns'], 'at': at})

    @staticmethod
    def closed(n, edges):
        """The documents which a document reaches."""
        seen = {a: {b for c, b in edges if c == a} for a in range(n)}
        for _ in range(n):
            for a in range(n):
                for b in list(seen[a]):
                    seen[a] |= seen[b]
        return seen

    def schemas(self, layout='flat', cyclic=False):
        docs, edges = self.documents(layout, cyclic)
        reach = self.closed(len(docs), edges)
        self.fill(docs, {(a, 0): {(b, 0) for b in reach[a] if a not in reach[b]} for a in reach},
                  {(a, 0) for a in {0, *reach[0]}})
        for doc in docs:
            if doc.get('chameleon'):
                doc['schemas'][0]['ns'] = ''
        return World(docs, q=self.r.random() < 0.5)

    def inline(self, doc, spaces):
        """Inline schemas for a WSDL document."""
        r = self.r
        n = len(spaces)
        doc['schemas'] = [{'ns': ns, 'refs': []} for ns in spaces]
        return [(a, b) for a in range(n) for b in range(n) if a < b and r.random() < 0.5]

    def wsdl(self, layout='flat', cyclic=False):
        """WSDL documents which import one another, with inline schemas which import one another and schema documents."""
        r = self.r
        xsds, edges = self.documents(layout, False, r.choice([1, 1, 2, 3])) if r.random() < 0.6 else ([], set())
        free = [f'urn:w{k}' for k in range(8)]
        w = r.choice([1, 1, 2, 3, 4])
        docs = []
        for k in range(w):
            place = self.place(100 + k, layout)
            docs.append({'kind': 'wsdl', 'loc': place, 'refs': [], 'schemas': []})
        if layout == 'mixed':
            docs[0]['loc'] = location('', [*self.directory(), 's.wsdl'])
        can = lambda a, b: not (a['loc']['h'] and not b['loc']['h'])  # noqa: E731
        imports = set()
        for b in range(1, w):
            able = [a for a in range(b) if can(docs[a], docs[b])]
            if able:
                imports.add((r.choice(able), b))
            imports |= {(a, b) for a in able if r.random() < 0.25}
            if cyclic:
                imports |= {(b, a) for a in range(b) if can(docs[b], docs[a]) and r.random() < 0.4}
        for a, b in sorted(imports):
            docs[a]['refs'].append(relative(r, docs[a]['loc'], docs[b]['loc']))
        # All inline schemas, of all documents.
        inline = []
        for d in range(w):
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if free:
                    inline.append((d, len(docs[d]['schemas'])))
                    docs[d]['schemas'].append({'ns': free.pop(r.randrange(len(free))), 'refs': []})
        all_docs = docs + xsds
        graph = {}
        order = r.sample(inline, len(inline))
        reached = self.closed(w, imports)
        for j, x in enumerate(order):
            s = all_docs[x[0]]['schemas'][x[1]]
            graph[x] = set()
            for y in order[:j]:
                # The namespace of another inline schema; the document which has it is part of the WSDL anyway.
                if (y[0] in reached[0] or y[0] == 0) and (x[0] in reached[0] or x[0] == 0) and r.random() < 0.45:
                    graph[x].add(y)
                    s['refs'].append({'how': 'import', 'ns': all_docs[y[0]]['schemas'][y[1]]['ns'], 'at': []})
            for k, doc in enumerate(xsds):
                if can(all_docs[x[0]], doc) and r.random() < 0.4:
                    graph[x].add((w + k, 0))
                    s['refs'].append({'how': 'import', 'ns': doc['schemas'][0]['ns'], 'at': [relative(r, all_docs[x[0]]['loc'], doc['loc'])]})
            if r.random() < 0.1:
                # A namespace whose schema is nowhere.
                s['refs'].append({'how': 'import', 'ns': r.choice(['urn:nowhere', 'http://schemas.xmlsoap.org/soap/encoding/']), 'at': []})
        reach = self.closed(len(xsds), edges)
        for a in reach:
            graph[w + a, 0] = {(w + b, 0) for b in reach[a]}
        for _ in range(6):
            for x in graph:
                for y in list(graph[x]):
                    graph[x] |= graph[y]
        live = {x for x in inline if x[0] in {0, *reached[0]}}
        self.fill(all_docs, graph, live.union(*(graph[x] for x in live)))
        with_elements = [(s['ns'], e['n']) for x in inline if x[0] in reached[0] or x[0] == 0
                         for s in [all_docs[x[0]]['schemas'][x[1]]] for e in s['elements']]
        if with_elements:
            holders = [0, *sorted(reached[0])]
            offer(docs, [(r.choice(['Service', 'Service', 'Other']), [r.choice(with_elements) for _ in range(r.choice([1, 1, 2, 3]))])
                         for _ in range(r.choice([1, 1, 2, 3]))], lambda: r.choice(holders))
        return World(all_docs, q=r.random() < 0.5)


def run(r, world, way=None, decoys=(), cwd=None):
    """One case: the events of generating and importing."""
    with world:
        world.decoys(decoys)
        loc = world.docs[world.root]['loc']
        path = os.path.join(world.top, *loc['p']) if not loc['h'] else \
            world.text({'abs': True, 'root': False, 'h': loc['h'], 'p': loc['p'], 'q': loc['q']})
        elsewhere = os.path.join(world.top, *(cwd or []))
        os.makedirs(elsewhere, exist_ok=True)
        way = way or r.choice(['cli', 'cli', 'cli', 'api'])
        base = path.rpartition('/')[0]
        os.chdir(elsewhere)
        if way == 'stdin':
            if loc['h']:
                way = 'cli'
            else:
                os.chdir(base)
                way = ('stdin', '-')
        if way == 'cli':
            way = ('cli', path if loc['h'] or r.random() < 0.5 else os.path.relpath(path))
        elif way == 'api':
            where = base if loc['h'] else r.choice([base, os.path.relpath(base), base + '/', None])
            if loc['h'] and r.random() < 0.5:
                where += '/'
            if where is None:
                os.chdir(base)
            way = ('api', where)
        world.start()
        code, error = generate_code(world, way, limited, r.choice(['client', 'server']))
        with world.lock:
            world.drain()
            events = list(world.events)
        from worlds import event
        events.append(event('generated', ok=code is not None, what=error))
        if code is not None:
            define(code, events)
        return {'world': world.spec(way[0] != 'cli'), 'events': events, 'way': list(map(str, way)), 'code': (code or b'').decode()}


def generate(r, first, count):
    cases = []
    for _ in range(count):
        m = Maker(r)
        cyclic = r.random() < 0.2
        layout = r.choice(['flat', 'flat', 'dirs'])
        world = m.schemas(layout, cyclic) if r.random() < 0.6 else m.wsdl(layout, cyclic)
        cases.append(run(r, world, 'cli' if cyclic else None))
    return cases


def types_world(r, graph, n):
    """One document with complex and simple types of the bases a graph tells."""
    base = {a: b for a, b in graph['edges']}
    simple = [{'n': f's{k}', 'base': f's{base[k]}' if k in base else '', 'builtin': 'int'} for k in range(1, n + 1)]
    complex_ = [{'n': f'c{k}', 'base': f'c{base[k]}' if k in base else '',
                 'fields': [{'n': f'f{k}', 't': r.choice([f'c{r.randint(1, n)}', f's{r.randint(1, n)}', 'xs:int'])}]} for k in range(1, n + 1)]
    elements = [{'n': 'e', 't': f'c{n}', 'anon': False, 'fields': []}]
    listing = [('complex', t) for t in complex_]
    for t in simple:
        listing.insert(r.randint(max([k for k, (_, o) in enumerate(listing, 1) if o in simple], default=0), len(listing)), ('simple', t))
    listing.insert(r.randint(0, len(listing)), ('elements', elements[0]))
    return World([{'kind': 'xsd', 'loc': location('', ['d.xsd']), 'refs': [],
                   'schemas': [{'ns': 'urn:a', 'refs': [], 'simple': simple, 'complex': complex_, 'elements': elements, 'listing': listing}]}])


def plain(n, edges, ns):
    """The definitions of schema n; its types need those of the schemas it refers to."""
    needed = [b for a, b in edges if a == n]
    complex_ = [{'n': f'c{n}', 'base': f'c{needed[0]}' if needed else '',
                 'fields': [{'n': f'f{n}x{k}', 't': f's{k}' if k % 2 else f'c{k}'} for k in [*needed, n]]}]
    simple = [{'n': f's{n}', 'base': f's{needed[-1]}' if needed else '', 'builtin': 'string'}]
    elements = [{'n': f'e{n}', 't': f'c{n}', 'anon': False, 'fields': []}]
    listing = [('elements', elements[0]), ('complex', complex_[0]), ('simple', simple[0])]
    return {'ns': ns, 'refs': [], 'simple': simple, 'complex': complex_, 'elements': elements, 'listing': listing}


def schemas_world(r, graph, n):
    """A WSDL with inline schemas which import one another."""
    schemas = [plain(k, graph['edges'], f'urn:n{k}') for k in range(1, n + 1)]
    for a, b in graph['edges']:
        schemas[a - 1]['refs'].append({'how': 'import', 'ns': f'urn:n{b}', 'at': []})
    docs = [{'kind': 'wsdl', 'loc': location('', ['s.wsdl']), 'refs': [], 'schemas': schemas}]
    offer(docs, [('Service', [('urn:n1', 'e1')])])
    return World(docs)


PLACES = {'flat': ('', []), 'dir': ('', ['b']), 'deep': ('', ['b', 'c']), 'url': ('h1', ['u'])}


def docs_world(r, graph, n):
    """Schema documents which refer to one another."""
    edges = [tuple(e) for e in graph['edges']]
    reach = Maker.closed(n + 1, set(edges))
    tree = [(a, b) for a, b in edges if a not in reach[b]]
    docs = []
    for k in range(1, n + 1):
        h, p = PLACES[graph['at'][k - 1]]
        docs.append({'kind': 'xsd', 'loc': location(h, [*p, f'd{k}.xsd']), 'refs': [],
                     'schemas': [plain(k, tree, 'urn:b' if graph['ns'][k - 1] else 'urn:a')]})
    for a, b in r.sample(edges, len(edges)):
        s, t = docs[a - 1]['schemas'][0], docs[b - 1]['schemas'][0]
        same = s['ns'] == t['ns']
        s['refs'].append({'how': 'include' if same else 'import', 'ns': '' if same else t['ns'],
                          'at': [relative(r, docs[a - 1]['loc'], docs[b - 1]['loc'])]})
    return World(docs)


def replay(jobs, name):
    r = vlib.rng(name)
    makers = {'types': types_world, 'schemas': schemas_world, 'docs': docs_world}
    return [run(r, makers[mode](r, graph, n), 'cli', decoys, cwd) for mode, n, graph, decoys, cwd in jobs]


def check_space(check, mode, n, layouts=('flat',), most=None, decoys=(), cwd=None):
    config = (f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = "{mode}"\nN = {n}\nLayouts = {{{", ".join(map(json.dumps, layouts))}}}\n'
              'INVARIANTS Once InOrder Complete Report\nPROPERTIES Ends')
    graphs = check.explore('CodegenSpace', config, name=f'CodegenSpace ({mode}, {n})', timeout=1500)
    if most and len(graphs) > most:
        graphs = vlib.rng(f'graphs/{mode}').sample(graphs, most)
    jobs = [(mode, n, graph, decoys, cwd) for graph in graphs]
    parts = [(jobs[k::14], f'replay/{mode}/{k}') for k in range(14)]
    cases = [case for part in vlib.parallel(replay, [p for p in parts if p[0]]) for case in part]
    check.replayed(len(cases), f'CodegenSpace ({mode}, {n})')
    for start in range(0, len(cases), 2000):
        check.validate('CodegenTrace', cases[start:start + 2000], name=f'CodegenTrace (all {mode})', timeout=1500)


def body(check):
    check_space(check, 'types', vlib.scale(5, 6), most=vlib.scale(None, 8000))
    check_space(check, 'schemas', 4)
    check_space(check, 'docs', vlib.scale(3, 4), most=vlib.scale(400, 5000))
    cases = vlib.generate(generate, 'p20', vlib.scale(400, 6000))
    check.sample({k: v for k, v in cases[0].items() if k != 'code'})
    for start in range(0, len(cases), 1000):
        check.validate('CodegenTrace', cases[start:start + 1000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P20', body))
