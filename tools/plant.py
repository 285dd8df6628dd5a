"""Confirm planted bugs: seeded/<id> applies, builds, passes the stable tests, its demonstration fails with it only.

plant.py [--check] ID...   (--check: also run the quick check of its property and say whether it is caught)
The bug is applied to /repo for the time of the run and undone afterwards.
"""
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def run(cmd, cwd=REPO, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        data = json.load(f)
    with tempfile.NamedTemporaryFile(suffix='.json') as out:
        run(['bash', '/opt/vp/test.sh', out.name])
        with open(out.name) as f:
            now = json.load(f)
    key = next(k for k in ('passed', 'pass', 'stable') if k in data)
    return sorted(set(data[key]) - set(now.get('passed', now.get('pass', ()))))


def kept(path):
    """The numbers of the lines of the file which are the original repository's (as git diff sees it)."""
    first = run(['git', 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
    with open(os.path.join(REPO, path)) as f:
        lines = set(range(1, len(f.read().split('\n')) + 1))
    for line in run(['git', 'diff', '-U0', first, 'HEAD', '--', path]).stdout.split('\n'):
        match = re.match(r'@@ -\S+ \+(\d+)(?:,(\d+))? @@', line)
        if match:
            start, count = int(match.group(1)), int(match.group(2) or 1)
            lines -= set(range(start, start + count))
    return lines


def original(folder):
    """The lines the patch removes which are not lines of the original repository."""
    bad = []
    with open(os.path.join(folder, 'patch.diff')) as f:
        for line in f:
            if line.startswith('--- a/'):
                lines = kept(line[6:].strip())
            elif line.startswith('@@'):
                at = int(re.match(r'@@ -(\d+)', line).group(1))
            elif line.startswith(('+', 'diff', 'index', '---')):
                continue
            else:
                if line.startswith('-') and line[1:].strip() and at not in lines:
                    bad.append(line.rstrip())
                at += 1
    return bad


def main():
    args = sys.argv[1:]
    check = '--check' in args
    for pid in [a for a in args if not a.startswith('--')]:
        folder = os.path.join(VERIF, 'seeded', pid)
        meta = json.load(open(os.path.join(folder, 'meta.json')))
        notes = []
        if run(['git', 'status', '--porcelain', '-uno']).stdout.strip():
            sys.exit('/repo is not clean')
        bad = original(folder)
        if bad:
            notes.append(f'changes lines which are not original: {bad[:2]}')
        demo = os.path.join(folder, 'demo.sh')
        r = run(['bash', demo])
        if r.returncode:
            notes.append(f'demo fails on the unchanged tree: {r.stdout[-500:]}')
        r = run(['git', 'apply', os.path.join(folder, 'patch.diff')])
        if r.returncode:
            print(pid, 'does not apply', r.stdout)
            continue
        caught = ''
        try:
            missing = stable()
            if missing:
                notes.append(f'tests fail: {missing[:3]}')
            r = run(['bash', demo])
            if not r.returncode:
                notes.append('demo passes with the bug')
            if check:
                props = [meta['property']]
                out = run([sys.executable, f'harness/{props[0].lower()}.py'], cwd=VERIF, env={'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
                caught = 'CAUGHT' if out.returncode == 1 else f'MISSED ({out.returncode}) {out.stdout[-300:] if out.returncode != 0 else ""}'
        finally:
            run(['git', 'checkout', '--', '.'])
        print(pid, meta['property'], 'ok' if not notes else notes, caught, flush=True)


main()
