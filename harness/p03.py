"""P03: whatever is sent or fails, the answer is a well-formed fault (spec/Dispatch.tla, DispatchTrace.tla)."""
import copy

import p01
import vlib
from dispatching import ENV, EMPTY, EXCEPTIONS, Content, Harness, ServiceGenerator, action_headers, qn
from model import XSI, tree_of
from p01 import present
from schemas import all_names, mutate
from simple import cps
from soapfish import core
from lxml import etree

CANARY = '/etc/hostname'


def parsed(doc):
    """(wf, tree) of a document without entities."""
    try:
        return 'yes', tree_of(etree.fromstring(doc))
    except (etree.XMLSyntaxError, ValueError):
        return 'no', EMPTY


# --- envelopes which are none, or nearly ----------------------------------------------------------------
def improper(r, s, env):
    """A changed envelope."""
    env = copy.deepcopy(env)
    ns, other = ENV[s.version], ENV['soap12' if s.version == 'soap11' else 'soap11']
    body = env['k'][-1]
    for _ in range(r.choice([1, 1, 2])):
        way = r.randrange(20)
        if way == 0:
            env['k'] = [k for k in env['k'] if k['n'] != 'Body']
        elif way == 1:
            body['k'] = []
        elif way == 2:
            body['k'], body['x'] = [], cps(r.choice(['text', ' ']))
        elif way == 3:
            env['k'] = []
        elif way == 4:
            env['k'].append(copy.deepcopy(body))
        elif way == 5:
            env['k'].append({**qn('Body', ns), 'k': []})
        elif way == 6:
            env['k'].insert(0, {**qn('Body', ns), 'k': []})
        elif way == 7:
            env['k'].reverse()
        elif way == 8:
            body['k'].append(copy.deepcopy(body['k'][0]) if body['k'] else qn('x'))
        elif way == 9:
            body['k'].insert(0, r.choice([qn('x'), qn('Fault', ns), {**qn('Fault', ns), 'k': [qn('faultcode'), qn('x')]}, qn('message')]))
        elif way == 10:
            env['ns'] = r.choice(['', other, 'urn:x'])
        elif way == 11:
            body['ns'] = r.choice(['', other, 'urn:x'])
        elif way == 12:
            env['n'] = r.choice(['envelope', 'Envelop', 'Body', 'Fault'])
        elif way == 13:
            body['n'] = r.choice(['body', 'Bodies', 'Header', 'Fault'])
        elif way == 14:
            r.choice([env, body])['a'] = [{'ns': XSI, 'n': 'nil', 'v': cps(r.choice(['true', '1', 'false', 'x', '']))}]
        elif way == 15:
            r.choice([env, body])['x'] = cps('text')
        elif way == 16:
            env['k'].insert(r.randint(0, len(env['k'])), r.choice([qn('Header', ns), {**qn('Header', ns), 'x': cps('x')}, qn('x', 'urn:x'), qn('Header')]))
        elif way == 17:
            env['k'].insert(0, {**qn('Header', ns), 'a': [{'ns': XSI, 'n': 'nil', 'v': cps('true')}]})
        elif way == 18:
            body['k'] = [copy.deepcopy(env)] if r.random() < 0.5 else [{**qn('Body', ns), 'k': body['k']}]
            env = {**qn('Envelope', ns), 'k': [body]}
            return env
        else:
            return body['k'][0] if body['k'] and r.random() < 0.5 else body
    return env


def fix_text(node):
    """Text between elements is written nowhere else."""
    if node['k']:
        node['x'] = []
    for kid in node['k']:
        fix_text(kid)
    return node


# --- contents which are hardly XML ---------------------------------------------------------------------
GARBAGE = [b'', b' ', b'\n', b'<', b'<a', b'<a>', b'<a/><b/>', b'text', b'\x00', b'\xff\xfe', b'\xef\xbb\xbf', b'<?xml version="1.0"?>',
           b'<?xml version="1.0" encoding="nope"?><a/>', b'<?xml version="2.0"?><a/>', b'<!DOCTYPE a>', b'<!-- -->', b'<?pi?>', b'{"json": 1}',
           b'<a xmlns:x=""/>', b'<x:a/>', b'<a b="1" b="2"/>', b'<a>&nbsp;</a>', b'<a>&#0;</a>', b'<a>\x01</a>', b'<a>]]></a>',
           '<?xml version="1.0" encoding="utf-16"?><a/>'.encode(), '<a/>'.encode('utf-16'), b'\xff' * 10, b'<a>' * 400,
           '', ' ', 'text', '<a>', '<?xml version="1.0" encoding="utf-8"?><a/>', '\x00', '<a>\ud800</a>', 'Größe', '<a>\x0b</a>', None]


def garbled(r, doc):
    """The document with some bytes or characters changed."""
    n = len(doc)
    at = r.randrange(n + 1)
    way = r.randrange(7)
    if way == 0:
        return doc[:at]
    if way == 1:
        return doc[at:]
    if way == 2:
        return doc[:at] + doc[min(n, at + r.randint(1, 3)):]
    if way == 3:
        return doc + doc[:at]
    junk = r.choice(['<', '&', '\x00', ' ', '<!--', '-->', '</', '&#0;', '&x;', ']]>', '"', '<a/>', '\x0b', '<?', 'é'])
    if isinstance(doc, bytes):
        junk = r.choice([junk.encode(), b'\xff', b'\xc3'])
    return doc[:at] + junk + doc[at + r.randint(0, 1):]


ENTITY_DOCS = [
    ('<!DOCTYPE x [<!ENTITY e SYSTEM "file://%s">]>' % CANARY, '&e;'),
    ('<!DOCTYPE x [<!ENTITY e "text">]>', '&e;'),
    ('<!DOCTYPE x SYSTEM "file://%s">' % CANARY, ''),
    ('<!DOCTYPE x [<!ENTITY %% p SYSTEM "file://%s"> %%p;]>' % CANARY, ''),
    ('<!DOCTYPE x [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;"><!ENTITY c "&b;&b;&b;">'
     '<!ENTITY e "&c;&c;">]>', '&e;'),
    ('<!DOCTYPE x [<!ENTITY e "&e;">]>', '&e;'),
    ('<!DOCTYPE x [', ''),
]


def with_doctype(r, s, env):
    """A document with a DOCTYPE; entities are at places where nothing reads them as text of a value."""
    prolog, ref = r.choice(ENTITY_DOCS)
    ns = ENV[s.version]
    plain = p01.Presenter(r, plain=True).document(env).decode()
    plain = plain[plain.index('<', 2) if plain.startswith('<?') else 0:]
    at = plain.find('<', plain.index('Body'))
    doc = prolog + plain[:at] + (ref if r.random() < 0.5 else '') + plain[at:]
    if r.random() < 0.3:
        doc = prolog + f'<e:Envelope xmlns:e="{ns}"><e:Body>{ref}</e:Body></e:Envelope>'
    return doc.encode()


def bad_request(r, g, s):
    op = r.choice(s.ops)
    env = {'REQUEST_METHOD': 'POST', **action_headers(r, s, op.action or None)}
    tree = g.body_tree(s, op.input)
    header = g.header_tree(s, op) if r.random() < 0.3 else None
    envelope = s.envelope(header, tree)
    way = r.random()
    if way < 0.15:
        doc = r.choice(GARBAGE)
        if doc is None:
            doc = bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
        wf, got = parsed(doc)
        if wf == 'no' and isinstance(doc, str) and doc.startswith('<?xml'):
            wf, got = parsed(doc.encode())
            return Content(env, doc, 'maybe', got)
        return Content(env, doc, wf, got)
    if way < 0.4:
        return Content(env, present(r, fix_text(improper(r, s, envelope))))
    if way < 0.6:
        doc = garbled(r, present(r, envelope))
        wf, got = parsed(doc)
        if wf == 'no' and isinstance(doc, str):
            return Content(env, doc, 'no', EMPTY)
        return Content(env, doc, wf, got)
    if way < 0.7:
        doc = with_doctype(r, s, envelope)
        wf, got = parsed(doc)
        return Content(env, doc, 'no' if wf == 'no' else 'maybe', got)
    if way < 0.8:
        envelope['k'][-1]['k'] = [mutate(r, tree, all_names(s.m), 2)]
    return Content(env, present(r, envelope))


# --- failing callbacks -----------------------------------------------------------------------------------
CODES = ['Client', 'Server', 'Client.Sub', 'ns0:Sender', 'ns0:Receiver', 'MustUnderstand', 'x:y', 'Größe', '<&>"', '1']
MESSAGES = ['', 'text', ' text\n', '<b>&amp;</b>', ']]>', 'Größe \u20ac \U0001f600', '\x00\x01\x0b', 'a\rb', '\ud800', '\ufffe', 'x' * 200, '%s {0}', "it's \"q\""]


class Whatever(Exception):
    def __str__(self):
        return 'whatever <&> \x07'


def failure(r):
    if r.random() < 0.5:
        code = r.choice(CODES) if r.random() < 0.5 else None
        return core.SOAPError(code, r.choice(MESSAGES + [None, 42, ValueError('x')]), actor=r.choice([None, 'urn:actor']))
    kind = r.choice([*EXCEPTIONS, 'Whatever', 'Unicode'])
    if kind == 'Whatever':
        return Whatever()
    if kind == 'Unicode':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad')
    if kind == 'SOAPError':
        return core.SOAPError('Server', 'x')
    return EXCEPTIONS[kind](*r.choice([(), (r.choice(MESSAGES),), (1, 2), ('a', None)]))


def answer(r, g, s):
    good = p01.answer(r, g, s)
    codes = s.service.version.Code

    def handler(o, request, body):
        if r.random() < 0.3:
            return good(o, request, body)
        e = failure(r)
        if isinstance(e, core.SOAPError) and e.code is None:
            e.code = r.choice([codes.CLIENT, codes.SERVER])
        if isinstance(e, core.SOAPError) and r.random() < 0.6:
            if r.random() < 0.4:
                return e
            op = s.ops[o - 1]
            name = op.outh or s.outh
            hdr = g.header_object(s, name) if g.header_renders(s, name) and r.random() < 0.7 else None
            return core.SOAPResponse(e, soap_header=hdr, http_headers=r.choice([{'X-Fault': '1'}, {'Content-Type': 'text/html'}]) if r.random() < 0.3 else None,
                                     http_status_code=r.choice([200, 200, 500, 400]))
        raise e
    return handler


def fails(r, s):
    """A middleware which may fail on the way down or up."""
    def script(request, call_on):
        where = r.random()
        if where < 0.15:
            e = failure(r)
            if isinstance(e, core.SOAPError):
                e.code = e.code or s.service.version.Code.CLIENT
                if r.random() < 0.5:
                    return e
            raise e
        result = call_on(request)
        if where < 0.3:
            e = failure(r)
            if isinstance(e, core.SOAPError):
                e.code = e.code or s.service.version.Code.SERVER
            raise e
        return result
    return script


def generate(r, first, count):
    cases = []
    for k in range(first, first + count):
        g = ServiceGenerator(r, recursion=False, top=r.choice([1, 2]))
        s = g.service(headers=0.3, imports=0.1, ops=r.choice([1, 2, 3]), header_ns=True)
        try:
            mws = []
            if r.random() < 0.8:
                mws.append(('e2f', (), r.random() < 0.2, None))
            if r.random() < 0.3:
                mws.append(('script', (), False, fails(r, s)))
            if r.random() < 0.15:
                mws.insert(0, ('script', (), False, fails(r, s)))
            h = Harness(s, mws)
            h.handler = answer(r, g, s)
            for n in range(1, 13):
                h.dispatch(bad_request(r, g, s), n)
            cases.append(h.case(12))
        finally:
            s.close()
    return cases


def body(check):
    cases = vlib.generate(generate, 'p03', vlib.scale(1000, 10000))
    check.sample(cases[0])
    for start in range(0, len(cases), 2000):
        check.validate('DispatchTrace', cases[start:start + 2000], timeout=1500)


if __name__ == '__main__':
    raise SystemExit(vlib.main('P03', body))
