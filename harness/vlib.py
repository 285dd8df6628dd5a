"""Common machinery of the checks: running TLC, collecting verdicts, evidence and exit codes.

Every check records what the real code (imported from /repo) did as cases in an ndjson file; a TLA+ trace
specification reads the file and TLC decides for every case whether it is a behaviour of the specification.
In the other direction TLC enumerates behaviours of a bounded specification and the check replays them.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from lxml import etree

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.path.join(VERIF, 'evidence')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
QUICK = TIER != 'thorough'

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    """Something which is no statement about the code under test."""


class UnfitTrace(MachineryError):
    """TLC can not evaluate the specification for what has been recorded: it is nothing the specification speaks about."""

    def __init__(self, message, result):
        super().__init__(message)
        self.result = result


class LibraryError(Exception):
    """An exception which left the library in a worker process."""


def from_library(e):
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    if any(f.startswith(os.path.join(REPO, 'soapfish')) for f in frames) or isinstance(e, (ImportError, AttributeError)):
        return True
    # A result of the library which the harness can make nothing of; anything else may be due to the machine.
    return isinstance(e, (LookupError, TypeError, ValueError, StopIteration, AssertionError, etree.LxmlError)) and not isinstance(e, json.JSONDecodeError)


def _guarded(job):
    func, args = job
    try:
        return 'ok', func(*args)
    except MachineryError as e:
        return 'machinery', str(e)
    except Exception as e:  # noqa: B902
        return 'library' if from_library(e) else 'machinery', traceback.format_exc()


def parallel(func, jobs, workers=7):
    """func(*args) for each of the jobs, in processes of their own; the results in order."""
    import multiprocessing
    jobs = [(func, args) for args in jobs]
    with multiprocessing.get_context('fork').Pool(min(workers, len(jobs))) as pool:
        results = []
        for status, value in pool.imap(_guarded, jobs):
            if status == 'library':
                raise LibraryError(value)
            if status == 'machinery':
                raise MachineryError(value)
            results.append(value)
    return results


def generate(func, name, count, parts=14):
    """Lists of cases from func(rng, first, count), generated in parallel (but depending on the seed only)."""
    size = -(-count // parts)
    jobs = [(func, name, k, min(size, count - k)) for k in range(0, count, size)]
    return [case for cases in parallel(_generate, jobs) for case in cases]


def _generate(func, name, first, count):
    return func(rng(f'{name}/{first}'), first, count)


def scale(quick, thorough):
    return quick if QUICK else thorough


def rng(name):
    return random.Random(f'{SEED}/{name}')


def cps(text):
    return [ord(c) for c in text]


def uncps(codes):
    return ''.join(map(chr, codes))


# --- TLC -----------------------------------------------------------------------------------------
TLC_JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.initial = 0
        self.reports = []
        self.output = ''
        self.violated = None
        self.wall = 0.0

    @property
    def transitions(self):
        return max(self.generated - self.initial, 0)


def run_tlc(module, config, env=None, workers=6, timeout=800, extra=(), heap='6g'):
    """Run TLC on spec/<module>.tla with the text of a configuration; return the reports the module printed."""
    result = TLCResult()
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfg = os.path.join(meta, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(config)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss128m', f'-Xmx{heap}', '-cp', TLC_JAR, 'tlc2.TLC', '-config', cfg,
               '-metadir', os.path.join(meta, 'states'), '-workers', str(workers), '-noGenerateSpecTE',
               *extra, os.path.join(SPEC, module + '.tla')]
        environ = {k: v for k, v in os.environ.items() if k != 'JAVA_TOOL_OPTIONS'}
        environ.update({k: str(v) for k, v in (env or {}).items()})
        start = time.time()
        out_path = os.path.join(meta, 'out')
        with open(out_path, 'w') as out:
            try:
                rc = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, env=environ, cwd=meta,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC timed out on {module}') from None
        result.wall = time.time() - start
        rest = []
        with open(out_path, errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    result.reports.append(json.loads(json.loads(line.rstrip('\n'), strict=False)[2:]))
                elif not line.startswith(('Parsing file', 'Semantic processing')):
                    rest.append(line)
        result.output = ''.join(rest)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', result.output)
    if m:
        result.generated, result.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r'Finished computing initial states: (\d+) distinct state', result.output)
    m2 = re.search(r'Finished computing initial states: (\d+) states generated, with (\d+) of them distinct', result.output)
    result.initial = int(m2.group(2)) if m2 else int(m.group(1)) if m else 0
    m = re.search(r'Error: (Invariant|Action property|Temporal properties|Postcondition|Assumption)\s*(\S*)', result.output)
    if rc == 0 and 'Model checking completed. No error has been found' in result.output:
        return result
    if m and rc in (10, 11, 12, 13):
        result.violated = m.group(0)
        return result
    if re.search(r'Attempted to|was evaluating', result.output) and not re.search(r'StackOverflow|OutOfMemory|heap space', result.output):
        raise UnfitTrace(f'TLC can not evaluate {module} (exit {rc}):\n{result.output[-6000:]}', result)
    raise MachineryError(f'TLC failed on {module} (exit {rc}):\n{result.output[-6000:]}')


def write_cases(cases):
    fd, path = tempfile.mkstemp(suffix='.ndjson', prefix='cases-')
    with os.fdopen(fd, 'w') as f:
        for case in cases:
            f.write(json.dumps(case, separators=(',', ':')) + '\n')
    return path


# --- known findings -------------------------------------------------------------------------------
def known_findings(pid):
    """Lines of KNOWN_FINDINGS.txt: 'finding: property=<id> key=<key> <description>' (fixed: lines suppress nothing)."""
    result = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    result[m.group(2)] = m.group(3).strip()
    return result


# --- checks ---------------------------------------------------------------------------------------
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.start = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.violations = []
        self.parts = {}
        self.assumptions = []
        self.exhaustive = []
        self.seen_findings = set()
        self.known = known_findings(pid)

    def count(self, result):
        self.states += result.distinct
        self.transitions += result.transitions

    def sample(self, case, limit=6):
        if len(self.samples) < limit:
            text = json.dumps(case)
            self.samples.append(case if len(text) < 3000 else text[:3000])

    def violation(self, what, case, key=None):
        if key is not None and key in self.known:
            if key not in self.seen_findings:
                self.seen_findings.add(key)
                print(f'KNOWN-FINDING: property={self.pid} {key}: {self.known[key]}', flush=True)
            return
        self.violations.append((what, case))

    def validate(self, module, cases, name=None, constants='', invariants=(), key=None, expect=None, chunk=None,
                 timeout=800):
        """Have TLC decide for each case whether it is a behaviour of the trace specification `module`.

        The module prints one report {c, i, bad} for each step which is no step of the specification.
        """
        name = name or module
        if not cases:
            raise MachineryError(f'no cases for {name}')
        path = write_cases(cases)
        try:
            config = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceConsumed\n' + constants
            for inv in invariants:
                config += f'INVARIANT {inv}\n'
            result = run_tlc(module, config, env={'CASES': path, 'CASE_COUNT': len(cases)}, timeout=timeout)
        except UnfitTrace as e:  # never on the unchanged tree
            result = e.result
            self.violation(f'{name}: an event which the specification can not be evaluated for', {'tlc': str(e)})
        finally:
            os.unlink(path)
        self.count(result)
        self.validated += len(cases)
        if result.violated:
            if not invariants or 'Postcondition' in result.violated:
                raise MachineryError(f'{module}: {result.violated}\n{result.output[-3000:]}')
            self.violation(f'{name}: {result.violated}', {'tlc': result.output[-3000:]})
        part = self.parts.setdefault(name, {'cases': 0, 'states': 0, 'transitions': 0, 'wall_s': 0})
        part['cases'] += len(cases)
        part['states'] += result.distinct
        part['transitions'] += result.transitions
        part['wall_s'] = round(part['wall_s'] + result.wall, 1)
        for r in result.reports:
            case = cases[r['c'] - 1]
            k = key(case, r) if key else None
            self.violation(f"{name}: {r.get('bad')}", {'case': case, 'report': r}, key=k)
        return result

    def explore(self, module, config, name=None, env=None, timeout=800, **kw):
        """Model check a bounded specification; its invariants are about the design, its reports are behaviours."""
        name = name or module
        result = run_tlc(module, config, env=env, timeout=timeout, **kw)
        self.count(result)
        if result.violated:
            raise MachineryError(f'{module}: {result.violated}\n{result.output[-6000:]}')
        part = self.parts.setdefault(name, {'behaviours': 0, 'states': 0, 'transitions': 0, 'wall_s': 0})
        part['behaviours'] += len(result.reports)
        part['states'] += result.distinct
        part['transitions'] += result.transitions
        part['wall_s'] = round(part['wall_s'] + result.wall, 1)
        # TLC's workers print them in any order.
        return sorted(result.reports, key=lambda x: json.dumps(x, sort_keys=True))

    def replayed(self, n, name=None):
        self.validated += n
        if name:
            self.parts.setdefault(name, {})['replayed'] = n

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        coverage = {
            'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated,
            'samples': self.samples or ['no sample'], 'parts': self.parts,
        }
        evidence = {
            'property': self.pid, 'tier': 'quick' if QUICK else 'thorough', 'seed': SEED, 'level': 'model_checking',
            'coverage': coverage, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 1),
            'violations': len(self.violations),
        }
        with open(os.path.join(EVIDENCE, f'{self.pid}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        if self.violations:
            replay = os.path.join(EVIDENCE, f'{self.pid}-replay.json')
            with open(replay, 'w') as f:
                json.dump([{'what': w, 'case': c} for w, c in self.violations[:int(os.environ.get("VERIF_SHOW", "50"))]], f, indent=1, default=repr)
            for what, _ in self.violations[:10]:
                print('  ' + str(what)[:600].replace('\n', ' '))
            print(f'{len(self.violations)} violations')
            print(f'VIOLATION property={self.pid} replay={replay}', flush=True)
            return 1
        print(f'OK property={self.pid} states={self.states} transitions={self.transitions} '
              f'traces={self.validated} wall={time.time() - self.start:.1f}s')
        return 0


def main(pid, body):
    """Run a check; only exit 0 (held) and 1 (violated) are verdicts, 2 is a failure of the machinery."""
    check = Check(pid)
    try:
        body(check)
    except MachineryError as e:
        print(f'MACHINERY-ERROR property={pid}: {e}', file=sys.stderr)
        return 2
    except Exception as e:  # noqa: B902
        # The harness only calls the public interface of the library: an exception which reaches this point has
        # not been expected from the library (on the unchanged tree there is none).
        tb = traceback.format_exc()
        if isinstance(e, LibraryError) or from_library(e):
            check.violation(f'unexpected {e.__class__.__name__} out of the library: {e}', {'traceback': tb})
        else:
            print(f'MACHINERY-ERROR property={pid}: {tb}', file=sys.stderr)
            return 2
    return check.finish()


def outcome(func, *args, **kw):
    """Call the library: ('ok', result) or ('raise', exception)."""
    try:
        return 'ok', func(*args, **kw)
    except Exception as e:  # noqa: B902
        return 'raise', e
