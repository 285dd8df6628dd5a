"""P07: requests are isolated from one another (spec/Interleave.tla, Dispatch.tla, DispatchTrace.tla)."""
import copy
import hashlib
import json
import os
import random
import sys
import threading

import p03
import p04
import p05
import vlib
from dispatching import Harness, ServiceGenerator
from soapfish import core, xsd

SOURCE = os.path.join('/repo', 'soapfish') + os.sep


def reachable(o, seen):
    """The mutable objects an object consists of."""
    if isinstance(o, (xsd.ComplexType, list, dict, core.SOAPResponse, core.SOAPRequest)):
        if any(x is o for x in seen):
            return seen
        seen.append(o)
        if isinstance(o, list):
            parts = list(o)
        elif isinstance(o, dict):
            parts = list(o.values())
        elif isinstance(o, xsd.ComplexType):
            parts = [v for k, v in vars(o).items() if k != '_xmlelement']
        else:
            parts = [o.soap_body, o.soap_header] + ([o.http_headers] if isinstance(o, core.SOAPResponse) else [o.environ])
        for p in parts:
            reachable(p, seen)
    return seen


def spoil(r, o):
    """Change an object a handler has got, as handlers may."""
    for x in reachable(o, []):
        if isinstance(x, list):
            if r.random() < 0.5:
                x.clear()
            elif len(x):
                x.append(x[0])
        elif isinstance(x, dict):
            x['X-Spoilt'] = 'yes'
        elif isinstance(x, xsd.ComplexType) and r.random() < 0.5:
            for name in [n for n in dir(type(x)) if isinstance(getattr(type(x), n), xsd.Element)]:
                try:
                    setattr(x, name, None)
                except (ValueError, TypeError):
                    pass


class Runner:
    """One service with its callbacks; makes dispatchers for histories and for requests alone."""

    def __init__(self, s, g, mws, hooks):
        self.s, self.g, self.mws, self.hook_names = s, g, mws, hooks

    def seeded(self, content, what):
        """A generator whose random numbers depend on the request and not on the history."""
        g = copy.copy(self.g)
        g.r = random.Random(f'{content.seed}/{what}')
        return g

    def content(self, rec, request):
        for x, c in zip(rec.requests, rec.contents):
            if x is request:
                return c
        raise vlib.MachineryError('unknown request')

    def make(self, rec=None):
        s = self.s
        box = []
        kept = []

        def script(i):
            def run(request, call_on):
                h = box[0]
                c = self.content(h.rec, request)
                way = random.Random(f'{c.seed}/mw{i}').random()
                if way < 0.1:
                    g = self.seeded(c, f'short{i}')
                    return g.result(s, g.r.choice(s.ops))
                if way < 0.2:
                    raise random.Random(f'{c.seed}/raise{i}').choice([ValueError('v'), core.SOAPError('Server', f'f{i}'), KeyError('k')])
                result = call_on(request)
                if isinstance(result, core.SOAPResponse):
                    result.http_headers[f'X-{c.seed}'] = str(i)
                return result
            return run

        def request_hook(request):
            c = self.content(box[0].rec, request)
            if random.Random(f'{c.seed}/hook').random() < 0.3:
                request.environ[f'X-{c.seed}'] = 'hook'
            return request

        def response_hook(response):
            response.http_headers['X-Hook'] = '1'
            return response

        mws = [(kind, excs, tb, script(i) if kind == 'script' else None) for i, (kind, excs, tb) in enumerate(self.mws)]
        hooks = {n: request_hook if n.endswith('request') else response_hook for n in self.hook_names}
        h = Harness(s, mws, hooks, rec)
        box.append(h)

        def handler(o, request, body):
            c = self.content(h.rec, request)
            kept.append((c.seed, reachable([body, request.soap_header], [])))
            g = self.seeded(c, 'handler')
            r = g.r
            op = s.ops[o - 1]
            way = r.random()
            if way < 0.15:
                error = p03.failure(r)
                if isinstance(error, core.SOAPError) and error.code is None:
                    error.code = 'Server'
                spoil(r, body)
                raise error
            result = g.result(s, op)
            if way < 0.6:
                name = op.outh or s.outh
                hdr = g.header_object(s, name) if g.header_renders(s, name) else None
                result = core.SOAPResponse(result, soap_header=hdr, http_headers={'X-H': c.seed, 'Content-Type': 'text/html'} if r.random() < 0.3 else None)
            spoil(r, body)
            spoil(r, request.soap_header)
            return result
        h.handler = handler
        h.kept = kept
        h.responses = []
        return h

    def alone(self, content):
        h = self.make()
        got = h.dispatch(content, 1)
        return digest(h.rec.events, 1, got)


def digest(events, r, got):
    """What a request has seen and how it was answered, without the identities of objects."""
    def plain(x):
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items() if k not in ('id', 'bid', 'req', 'r')}
        if isinstance(x, list):
            return [plain(v) for v in x]
        return x
    mine = [plain(e) for e in events if e['r'] == r]
    if isinstance(got, core.SOAPResponse):
        answer = [got.http_status_code, sorted(got.http_headers.items()), repr(got.http_content)]
    else:
        answer = [type(got).__name__, str(got)]
    return hashlib.sha1(json.dumps([mine, answer], sort_keys=True).encode()).hexdigest()


def seeded_content(r, g, s, seed):
    g.r = r
    c = p05.some_request(r, g, s) if r.random() < 0.3 else p03.bad_request(r, g, s) if r.random() < 0.25 else p04.some_request(r, g, s)
    c.seed = seed
    return c


def runner_for(r, k, threads=False):
    g = ServiceGenerator(r, recursion=k % 5 == 0, top=2)
    s = g.service(headers=0.4, imports=0.2, header_ns=True, ops=r.choice([2, 3]))
    mws = []
    if r.random() < 0.5:
        mws.append(('e2f', (), False))
    if r.random() < 0.6 or threads:
        mws.append(('script', (), False))
    if r.random() < 0.3:
        mws.insert(0, ('log', ('ValueError', 'SOAPError'), False))
    hooks = [n for n in p05.NAMES if r.random() < 0.4 or (threads and n.startswith('soap'))]
    return Runner(s, g, mws, hooks)


def histories(r, first, count):
    """Requests one after the other, with those of another service in between."""
    cases = []
    for k in range(first, first + count):
        runner, other = runner_for(r, k), runner_for(r, k)
        try:
            h, h2 = runner.make(), other.make()
            h2.rec.local.r = 1
            contents, results = [], []
            n = r.choice([4, 8, 12]) if k % 50 else 150
            for j in range(1, n + 1):
                c = seeded_content(r, runner.g, runner.s, f's{j}')
                if j > 1 and r.random() < 0.2:
                    c = contents[r.randrange(len(contents))]        # the same again
                contents.append(c)
                results.append(h.dispatch(c, j))
                if r.random() < 0.5:
                    h2.dispatch(seeded_content(r, other.g, other.s, f't{j}'), 1)
            compare(h, runner, contents, results)
            cases.append(h.case(n))
        finally:
            runner.s.close()
            other.s.close()
    return cases


def compare(h, runner, contents, results):
    """Events which say what each request has got here and gets alone, and which objects each consists of."""
    rec = h.rec
    for r, (c, got) in enumerate(zip(contents, results), 1):
        rec.local.r = r
        rec.emit('alone', got=digest(rec.events, r, got), alone=runner.alone(c))
    numbers = {}
    groups = [objects for _, objects in h.kept] + [reachable(got, []) for got in results if isinstance(got, core.SOAPResponse)]
    rec.emit('shared', sets=[[numbers.setdefault(id(x), len(numbers)) for x in objects] for objects in groups])


class Stepper:
    """Threads which run one after the other, from one pause to the next, as a schedule says."""

    def __init__(self, jobs, pauses):
        self.pauses = pauses
        self.turn = {r: threading.Semaphore(0) for r in jobs}
        self.back = threading.Semaphore(0)
        self.over = set()
        self.results = {}
        self.free = False
        self.threads = {r: threading.Thread(target=self.run, args=(r, job), daemon=True) for r, job in jobs.items()}

    def run(self, r, job):
        self.turn[r].acquire()
        try:
            self.results[r] = job()
        except BaseException as e:  # noqa: B902
            self.results[r] = e
        self.over.add(r)
        self.back.release()

    def pause(self, r, what):
        if what in self.pauses and threading.current_thread() is self.threads.get(r):
            self.back.release()
            self.turn[r].acquire()

    def step(self, r):
        if r in self.over:
            return
        self.turn[r].release()
        if not self.back.acquire(timeout=60):
            raise vlib.LibraryError('a request waits for another one')

    def play(self, schedule):
        for t in self.threads.values():
            t.start()
        for r in schedule:
            self.step(r)
        for r in self.threads:
            while r not in self.over:
                self.step(r)
        for t in self.threads.values():
            t.join(60)
        return [self.results[r] for r in sorted(self.threads)]


PAUSES = ('hook', 'enter', 'handler', 'leave')


def interleaved(r, schedules):
    """The real dispatcher, run through the interleavings of the specification."""
    cases = []
    for k, schedule in enumerate(schedules):
        if k % 10 == 0:
            if k:
                runner.s.close()
            runner = runner_for(r, k, threads=True)
        h = runner.make()
        n = max(schedule)
        contents = []
        for j in range(1, n + 1):
            c = seeded_content(r, runner.g, runner.s, f's{j}')
            contents.append(c)
        stepper = Stepper({j: (lambda j=j, c=c: h.dispatch(c, j)) for j, c in enumerate(contents, 1)}, PAUSES)
        h.rec.pause = stepper.pause
        results = stepper.play(schedule)
        h.rec.pause = lambda r, what: None
        for got in results:
            if isinstance(got, BaseException) and not isinstance(got, Exception):
                raise got
        compare(h, runner, contents, results)
        cases.append(h.case(n))
    if schedules:
        runner.s.close()
    return cases


def lines_of(job, at=None, then=None):
    """Run a job; count the lines of soapfish it executes, and do something before one of them."""
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == 'line':
            count += 1
            if count == at:
                then()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SOURCE) else None
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        result = job()
    finally:
        sys.settrace(old)
    return count, result


def preempted(r, first, count):
    """A request is interrupted before some line of the library, and another one is dispatched meanwhile."""
    cases = []
    for k in range(first, first + count):
        runner = runner_for(r, k)
        try:
            a = seeded_content(r, runner.g, runner.s, 'a')
            b = seeded_content(r, runner.g, runner.s, 'b')
            h = runner.make()
            total, _ = lines_of(lambda: h.dispatch(a, 1))
            points = range(1, total + 1)
            for at in r.sample(points, min(len(points), vlib.scale(4, 40))):
                h = runner.make()
                results = [None, None]

                def meanwhile():
                    t = threading.Thread(target=lambda: results.__setitem__(1, h.dispatch(b, 2)))
                    t.start()
                    t.join(60)
                    if t.is_alive():
                        raise vlib.LibraryError('a request waits for another one')
                _, results[0] = lines_of(lambda: h.dispatch(a, 1), at, meanwhile)
                if results[1] is None:  # this time there were fewer lines
                    continue
                compare(h, runner, [a, b], results)
                cases.append(h.case(2))
        finally:
            runner.s.close()
    return cases


def play(part, schedules):
    return interleaved(vlib.rng(f'p07/interleaved/{part}'), schedules)


def body(check):
    schedules = []
    for requests, points in vlib.scale([(2, 5), (3, 2)], [(2, 7), (3, 3), (4, 2)]):
        schedules += [x['sched'] for x in check.explore(
            'Interleave', f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Isolation\nCONSTANTS Requests = {requests}\nPoints = {points}\n',
            name=f'interleavings {requests}x{points}')]
    schedules.sort()
    vlib.rng('p07/order').shuffle(schedules)
    size = vlib.scale(40, 400)
    parts = [(k, schedules[k:k + size]) for k in range(0, len(schedules), size)]
    cases = [c for cs in vlib.parallel(play, parts) for c in cs]
    check.replayed(len(cases), 'interleavings')
    check.sample(cases[0])
    check_all(check, cases, 'interleaved')
    check_all(check, vlib.generate(histories, 'p07h', vlib.scale(300, 4000)), 'histories')
    check_all(check, vlib.generate(preempted, 'p07p', vlib.scale(100, 1000)), 'preempted')


def check_all(check, cases, name):
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], name=name, timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P07', body))
