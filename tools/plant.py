"""
Plant the bugs defined in tools/plants/: make each patch in a scratch copy of
/repo, prove that it builds, passes the stable tests and that its demonstration
tells the two trees apart, and write it to seeded/<id>/.

    python3 tools/plant.py [ID...]          make (all by default)
    python3 tools/plant.py --check [ID...]  run the property's own quick check on it
    python3 tools/plant.py --all-checks ID  run every quick check on it
"""
import argparse
import json
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
LOCK = threading.Lock()    # the tests listen on fixed ports
PLANTS = VERIF / 'tools/plants'
REPO = pathlib.Path('/repo')
PY = '/opt/venv/bin/python'
BASE = '6135a63'
ENV = {'HOME': '/root', 'PATH': '/usr/bin:/bin:/usr/local/bin', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONHASHSEED': '0', 'SIOTLS_INTEGRATION': '1'}
DEMO = '''#!/bin/bash
# run with cwd = a checkout of siotls: 0 when the guarantee holds
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 timeout 240 /opt/venv/bin/python -B "$here/demo.py"
'''


def bugs():
    sys.path.insert(0, str(PLANTS))
    out = {}
    for f in sorted(PLANTS.glob('bugs*.py')):
        for b in __import__(f.stem).BUGS:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def run(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def original_lines(path):
    text = run('git', '-C', str(REPO), 'blame', '-s', 'HEAD', '--', path).stdout
    return [line.startswith('^' + BASE) for line in text.splitlines()]


def make(b):
    work = pathlib.Path(tempfile.mkdtemp(prefix='plant-', dir='/tmp'))
    try:
        for n in ('clean', 'bug'):
            shutil.copytree(REPO, work / n, ignore=shutil.ignore_patterns('__pycache__'))
        touched = {}
        for path, old, new in b['edits']:
            p = work / 'bug/src/siotls' / path
            text = p.read_text()
            if text.count(old) != 1:
                return f'{path}: {text.count(old)} matches of {old!r}'
            p.write_text(text.replace(old, new))
            touched.setdefault(path, None)
        diff = run('git', '-C', str(work / 'bug'), 'diff', '--no-color').stdout
        # at least one removed line is one of the original repository, and none is ours
        path, n, theirs, ours = None, 0, 0, 0
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
                blame = original_lines(path)
            elif m := re.match(r'@@ -(\d+)', line):
                n = int(m[1])
            elif line.startswith('-') and path and not line.startswith('---'):
                if blame[n - 1]:
                    theirs += 1
                else:
                    ours += 1
                n += 1
            elif line.startswith(' '):
                n += 1
        if not theirs:
            return 'no original line changed'
        if ours:
            return f'{ours} lines of ours changed'
        d = VERIF / 'seeded' / b['id']
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        (d / 'patch.diff').write_text(diff)
        (d / 'demo.sh').write_text(DEMO)
        (d / 'demo.sh').chmod(0o755)
        (d / 'demo.py').write_text(b['demo'].lstrip('\n'))
        for f in (PLANTS / 'kit.py', VERIF / 'lib/pki.py', VERIF / 'lib/ref13.py'):
            name = f.stem
            if name == 'kit' or name in b['demo'] or (name in (PLANTS / 'kit.py').read_text()):
                shutil.copy(f, d / f.name)
        (d / 'meta.json').write_text(json.dumps(
            {'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
        # the copy is what is tested: its folder lies elsewhere
        elsewhere = work / 'elsewhere'
        shutil.copytree(d, elsewhere, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        for tree, want in (('clean', 0), ('clean', 0), ('bug', 1)):
            r = run('bash', str(elsewhere / 'demo.sh'), cwd=work / tree, env=ENV, timeout=300)
            if r.returncode != want:
                return f'demo on {tree}: exit {r.returncode}\n{r.stdout[-1500:]}{r.stderr[-1500:]}'
            if tree == 'bug' and 'BROKEN' not in r.stdout:
                return f'demo on {tree}: no verdict\n{r.stdout[-500:]}{r.stderr[-1500:]}'
        with LOCK:
            r = run('timeout', '600', PY, '-B', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--disable-warnings', '--tb=line', '-o', 'junit_family=xunit2', f'--junitxml={work}/j.xml',
                    cwd=work / 'bug', env=ENV | {'PYTHONPATH': str(work / 'bug/src')})
        bad = set()
        for case in ET.parse(work / 'j.xml').iter('testcase'):
            if case.find('failure') is not None or case.find('error') is not None:
                bad.add(f"{case.get('classname')}::{case.get('name')}")
        stable = set(json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable'])
        if bad & stable:
            return f'the tests see it: {sorted(bad & stable)}\n' + r.stdout[-400:]
        return None
    finally:
        shutil.rmtree(work)


def check(b, props):
    work = pathlib.Path(tempfile.mkdtemp(prefix='plant-', dir='/tmp'))
    try:
        shutil.copytree(REPO / 'src', work / 'src', ignore=shutil.ignore_patterns('__pycache__'))
        r = run('git', 'apply', '--unsafe-paths', f'--directory={work}', str(VERIF / 'seeded' / b['id'] / 'patch.diff'),
                cwd='/')
        if r.returncode:
            r = run('patch', '-p1', '-d', str(work), '-i', str(VERIF / 'seeded' / b['id'] / 'patch.diff'))
        if r.returncode:
            return {'?': r.stdout + r.stderr}
        shutil.copytree(VERIF, work / 'verif', ignore=shutil.ignore_patterns('__pycache__', '.git', 'seeded', 'evidence'))
        out = {}
        for p in props:
            r = run('python3', 'checks/run.py', p, '--quick', cwd=work / 'verif', timeout=1000,
                    env=ENV | {'SIOTLS_SRC': str(work / 'src'), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [line for line in r.stdout.splitlines() if line.startswith('VIOLATION')]
            out[p] = (r.returncode, v[0][:160] if v else r.stdout[-200:] + r.stderr[-200:])
        return out
    finally:
        shutil.rmtree(work)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--check', action='store_true')
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('-j', type=int, default=3)
    a = ap.parse_args()
    table = bugs()
    ids = a.ids or sorted(table)
    if a.check or a.all_checks:
        for i in ids:
            props = [f'C{n:02}' for n in range(1, 25)] if a.all_checks else [table[i]['property']]
            for p, (rc, what) in check(table[i], props).items():
                if not a.all_checks:
                    f = PLANTS / 'caught.json'
                    known = json.loads(f.read_text()) if f.exists() else {}
                    known[i] = {0: 'no', 1: 'yes'}.get(rc, f'exit {rc}')
                    f.write_text(json.dumps(known, indent=1, sort_keys=True) + '\n')
                if not a.all_checks or rc:
                    print(f"{'caught' if rc == 1 else 'MISSED' if rc == 0 else f'exit {rc}'} {i} {p} {what}", flush=True)
        return
    with ThreadPoolExecutor(a.j) as pool:
        for i, err in zip(ids, pool.map(lambda i: make(table[i]), ids)):
            if err and (VERIF / 'seeded' / i).exists():
                shutil.rmtree(VERIF / 'seeded' / i)
            print(f"{'ok' if err is None else 'BAD'} {i} {err or ''}", flush=True)


if __name__ == '__main__':
    main()
