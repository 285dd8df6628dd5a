"""Replays the histories of spec/DispatchSpace.tla (one request through hooks and middlewares)."""
import vlib
from dispatching import ENV, Content, Harness, ServiceGenerator, Service, Op
from lxml import etree
from soapfish import core, middlewares, soap, soap_dispatch, xsd

SCRIPTS = ['pass', 'short', 'shortS', 'raiseS', 'raiseE', 'afterS', 'afterE', 'other', 'catch', 'twice', 'replace', 'e2f', 'log', 'logE']
INVARIANTS = ['Balanced', 'AllEntered', 'HandlerRuns', 'Documents', 'HooksOnce', 'NoEscape', 'Nested']
HOOK_KINDS = {'soap': 'soap', 'invalid': 'soap', 'wsdl': 'wsdl', 'xsd': 'xsd', 'missing': 'xsd', 'other': 'wsdl'}


class In(xsd.ComplexType):
    x = xsd.Element(xsd.Int)


class Out(xsd.ComplexType):
    y = xsd.Element(xsd.String)


class Failed(Exception):
    pass


class Odd(Exception):
    pass


def service(version):
    imported = xsd.Schema('urn:i', location='i.xsd')
    schema = xsd.Schema('urn:p', imports=[imported], complexTypes=[In, Out], elements={'in': xsd.Element(In), 'out': xsd.Element(Out)})
    method = xsd.Method('Do', 'urn:do', input='in', output='out')
    return soap.Service('urn:p', 'http://x/ws', [schema], [method], version=version), method


def config(**kw):
    def show(v):
        return str(v) if isinstance(v, int) else '{%s}' % ', '.join(f'"{x}"' for x in v)
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n' + '\n'.join(f'{k} = {show(v)}' for k, v in kw.items())
            + '\nINVARIANTS ' + ' '.join(INVARIANTS))


class Run:
    """One request through the real dispatcher as a history tells."""

    def __init__(self, cfg, version, made):
        self.cfg = cfg
        self.hist = []
        self.keep = []          # (object, tag)
        self.service, self.method = made
        self.method.function = self.handle
        self.soap = self.service.version

    def say(self, e, i, x):
        self.hist.append({'e': e, 'i': i, 'x': x})

    def make(self, k, tag):
        if k == 'ok':
            o = Out(y=tag)
        elif k == 'soap':
            o = core.SOAPError('Mine', f'error of {tag}')
        else:
            o = {'exc': Failed, 'odd': Odd}[k](tag)
        self.keep.append((o, tag))
        return o

    def tag(self, o):
        body = o.soap_body if isinstance(o, core.SOAPResponse) else o
        for x, t in self.keep:
            if x is body or x is o:
                return t
        if isinstance(body, core.SOAPError):
            if body.code == self.soap.Code.CLIENT:
                return 'client'
            if body.code == self.soap.Code.SERVER:
                return 'server'
        return '?'

    def shown(self, o, up=False):
        body = o.soap_body if isinstance(o, core.SOAPResponse) else o
        k = ('soap' if isinstance(body, core.SOAPError) else 'exc' if isinstance(body, Failed) else 'odd' if isinstance(body, Odd)
             else 'ok' if isinstance(body, Out) else 'other')
        return k + ('!' if up else ':') + self.tag(o)

    def request(self, tag):
        kind = self.cfg['kind']
        env = {'REQUEST_METHOD': 'POST' if kind in ('soap', 'invalid') else 'PUT' if kind == 'other' else 'GET', 'CONTENT_TYPE': ''}
        env['QUERY_STRING'] = {'wsdl': 'wsdl', 'xsd': 'xsd=i.xsd', 'missing': 'xsd=none.xsd', 'other': 'wsdl'}.get(kind, '')
        ns = self.soap.ENVELOPE_NAMESPACE
        text = '1' if kind == 'soap' else 'x'
        doc = f'<e:Envelope xmlns:e="{ns}"><e:Body><p:in xmlns:p="urn:p"><x>{text}</x></p:in></e:Body></e:Envelope>'
        request = core.SOAPRequest(env, doc.encode())
        self.keep.append((request, tag))
        return request

    def handle(self, request, body):
        self.say('handler', 0, self.tag(request))
        end = self.cfg['end']
        o = self.make(end.rstrip('!'), 'h')
        if end.endswith('!'):
            raise o
        return o

    def script(self, i, mine):
        me = str(i)

        def run(request, call_on):
            if mine in ('short', 'shortS'):
                return self.make('ok' if mine == 'short' else 'soap', me)
            if mine in ('raiseS', 'raiseE'):
                raise self.make('soap' if mine == 'raiseS' else 'exc', me)
            if mine == 'replace':
                request = self.request('r' + me)
                request.dispatcher = self.dispatcher
            if mine == 'catch':
                try:
                    return call_on(request)
                except Exception:
                    return self.make('ok', me)
            if mine in ('afterS', 'afterE'):
                try:
                    call_on(request)
                finally:
                    raise self.make('soap' if mine == 'afterS' else 'exc', me)
            result = call_on(request)
            if mine == 'twice':
                result = call_on(request)
            if mine == 'other':
                return self.make('ok', me)
            return result
        return run

    def middleware(self, i, mine):
        log = []
        if mine == 'e2f':
            inner = middlewares.ExceptionToSoapFault()
        elif mine in ('log', 'logE'):
            run = self

            class Log:
                def error(self, *args, **kw):
                    log.append(args)
                    run.say('log', i, '')
                exception = error
            inner = middlewares.ExceptionLogger(logger=Log(), exceptions=(Exception,) if mine == 'log' else (Failed, ))
        else:
            inner = self.script(i, mine)

        def outer(request, next_call):
            self.say('enter', i, self.tag(request))

            def call_on(req):
                self.say('call', i, self.tag(req))
                try:
                    result = next_call(req)
                except Exception as e:
                    self.say('back', i, self.shown(e, True))
                    raise
                self.say('back', i, self.shown(result))
                return result
            try:
                result = inner(request, call_on)
            except Exception as e:
                self.say('leave', i, self.shown(e, True))
                raise
            self.say('leave', i, self.shown(result))
            return result
        return outer

    def hooks(self):
        cfg = self.cfg
        mine = HOOK_KINDS[cfg['kind']] if cfg['kind'] != 'other' else ''
        hooks = {}

        def other(*args, **kw):
            self.say('other hook', 0, '')
            return kw.get('response', kw.get('request'))
        if cfg['others'] == 'yes':
            hooks = {f'{k}-{p}': other for k in ('soap', 'wsdl', 'xsd') for p in ('request', 'response') if k != mine}
        if not mine:
            return hooks

        def on_request(dispatcher, request):
            self.say('hook-request', 0, self.tag(request) if dispatcher is self.dispatcher else 'wrong dispatcher')
            return {'same': request, 'other': None, 'wrong': core.SOAPResponse('x')}[cfg['rw']] or self.request('rh')

        def on_response(dispatcher, request, response):
            shown = self.final(response) if dispatcher is self.dispatcher else 'wrong dispatcher'
            self.say('hook-response', 0, self.tag(request) + ' ' + shown)
            if cfg['sw'] == 'same':
                return response
            if cfg['sw'] == 'wrong':
                return [None, request, b'x'][len(self.hist) % 3]
            made = core.SOAPResponse('x', http_content=b'hook')
            self.keep.append((made, 'hook'))
            return made
        if cfg['rw'] != 'none':
            hooks[mine + '-request'] = on_request
        if cfg['sw'] != 'none':
            hooks[mine + '-response'] = on_response
        return hooks

    def final(self, response):
        """What a response contains, judged by its bytes."""
        if response is next((o for o, t in self.keep if t == 'hook'), None):
            return 'ok:hook'
        kind = self.cfg['kind']
        content = response.http_content
        if kind not in ('soap', 'invalid'):
            if (response.http_status_code, content) == (404, b'not_found'):
                return 'missing:'
            if (response.http_status_code, content) == (400, b'bad_request'):
                return 'other:'
            return {'definitions': 'wsdl:', 'schema': 'xsd:'}[etree.QName(etree.fromstring(content).tag).localname]
        root = etree.fromstring(content)
        ys = root.findall('.//{*}out/y') or root.findall('.//{*}out/{*}y')
        if ys:
            return 'ok:' + ys[0].text if response.http_status_code == 200 else 'status?'
        if response.http_status_code != 500:
            return 'status?'
        texts = [(e.text or '') for e in root.iter() if isinstance(e.tag, str) and not len(e)]
        code, text = texts[0], texts[1]
        if code == self.soap.Code.CLIENT:
            return 'soap:client'
        if code == self.soap.Code.SERVER:
            return 'soap:server'
        return 'soap:' + text[len('error of '):] if code == 'Mine' and text.startswith('error of ') else 'soap:?' + text

    def __call__(self):
        cfg = self.cfg
        mws = [self.middleware(i, mine) for i, mine in enumerate(cfg['mws'], 1)]
        self.dispatcher = soap_dispatch.SOAPDispatcher(self.service, middlewares=mws, hooks=self.hooks())
        request = self.request('r')
        try:
            response = self.dispatcher.dispatch(request)
        except TypeError:
            return 'type!'
        except Exception as e:
            return self.shown(e, True)
        return self.final(response)


def replay(reports):
    """The histories which the library does not repeat."""
    made = [service(v) for v in (soap.SOAPVersion.SOAP11, soap.SOAPVersion.SOAP12)]
    failed = []
    for n, report in enumerate(reports):
        version = n % 2
        # A middleware which answers with an object leaves the name of the element to its class or the operation.
        run = Run(report['cfg'], version, made[version])
        try:
            v = run()
        except Exception as e:
            v = f'error {e!r}'
        if v != report['v'] or run.hist != report['hist']:
            failed.append({'expected': report, 'got': {'v': v, 'hist': run.hist}})
    return failed


def check_space(check, name, **kw):
    reports = check.explore('DispatchSpace', config(**kw), name=name)
    reports.sort(key=lambda x: str(x['cfg']))
    parts = [reports[k:k + 2000] for k in range(0, len(reports), 2000)]
    for failed in vlib.parallel(replay, [(p, ) for p in parts]):
        for f in failed:
            check.violation(f'{name}: not the history of the specification', f)
    check.replayed(len(reports), name)
