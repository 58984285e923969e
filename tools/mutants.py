"""
Systematic mutants of /repo, to measure the checks: every mutant which passes
the stable tests is given to the quick checks most likely to see it.

    python3 tools/mutants.py make N SEED      sample N mutants, run the tests on them
    python3 tools/mutants.py check            run the checks on those which survived

Needs a copy of /repo at /tmp/mut/repo. State is kept in /tmp/mut/*.jsonl. Nothing here is used by the checks.
"""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
FROZEN = pathlib.Path('/tmp/mut/repo')    # a copy of /repo, which stays as it is while this runs
SRC = FROZEN / 'src'
PKG = SRC / 'siotls'
STATE = pathlib.Path('/tmp/mut')
PY = '/opt/venv/bin/python'
ENV = {'HOME': '/root', 'PATH': '/usr/bin:/bin:/usr/local/bin:/usr/sbin:/sbin', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONHASHSEED': '0', 'SIOTLS_INTEGRATION': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}
STABLE = set(json.loads(pathlib.Path('/opt/vp/BASELINE.json').read_text())['stable'])
SKIP = ('_vendor.py', 'crypto/ffdhe.py', 'examples/')
ALERTS = ['UnexpectedMessage', 'IllegalParameter', 'DecodeError', 'HandshakeFailure', 'DecryptError', 'BadCertificate',
          'MissingExtension', 'ProtocolVersion', 'RecordOverflow', 'InternalError', 'UnsupportedCertificate']
SWAPS = {'client': 'server', 'server': 'client', 'big': 'little', '_read_seq': '_write_seq', '_write_iv': '_read_iv',
         'can_send': 'can_receive', 'can_receive': 'can_send', 'other_side': 'side'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
RELEVANT = {
    'connection.py': 'C01 C03 C08 C21 C12 C11 C09 C07 C04 C19 C15 C10 C16 C26 C28 C27',
    'wrapper.py': 'C17', 'ocsp_over_http.py': 'C18 C06', 'configuration.py': 'C24 C02 C05 C16 C01', '__main__.py': 'C25 C22',
    'utils.py': 'C22 C15 C13 C01', 'serial.py': 'C13 C07 C01', 'transcript.py': 'C01 C10 C20 C08', 'trust_store.py': 'C25 C05',
    'iana.py': 'C13 C01 C02 C21', 'contents/alerts.py': 'C13 C12 C21', 'contents/heartbeat.py': 'C19 C13 C07',
    'crypto/ciphers.py': 'C10 C15 C01 C09 C04', 'crypto/hkdf.py': 'C14 C10', 'crypto/key_exchanges.py': 'C14 C01',
    'crypto/signatures.py': 'C14 C05 C02 C06', 'crypto/ocsp.py': 'C06 C18', 'contents': 'C13 C07 C21 C20 C09',
    'states/server/wait_client_hello.py': 'C02 C01 C20 C21 C06 C16 C09 C08', 'states/client/start.py': 'C02 C20 C09 C16',
    'states/client/wait_certificate.py': 'C06 C05 C21', 'states/client': 'C02 C08 C21 C05 C20 C10', 'states/server': 'C08 C21 C10 C01',
    'states': 'C23 C08 C12 C11 C19 C21 C01', '': 'C01 C02 C08 C13 C21 C22',
}


def relevant(path):
    for k in sorted(RELEVANT, key=len, reverse=True):
        if path.startswith(k):
            return RELEVANT[k].split()


def mutants(path):
    """ (start, end, replacement, description) of every mutant of a file. """
    text = (PKG / path).read_text()
    tree = ast.parse(text)
    starts = [0]
    for line in text.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    raw = text.encode()
    assert len(raw) == len(text) or path in ('x',), path

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, what):
        a, b = span(n)
        if text[a:b] != new:
            out.append((a, b, new, f'{path}:{n.lineno} {what}: {text[a:b][:70]!r} -> {new[:70]!r}'))

    def src(n):
        a, b = span(n)
        return text[a:b]

    def visit(n, cosmetic=False, ann=False):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = src(n.func)
            if f.startswith(('logger.', 'logging.', 'dataclasses.field', 'textwrap', 'warnings')):
                return
        if isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('e', 'w', 'm', '_struct'):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ('__repr__', '__str__', 'hexdump', 'format'):
                return
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                visit(d)
            for s in n.body:
                visit(s)
            return
        if isinstance(n, ast.If):
            if not (isinstance(n.test, ast.NamedExpr)):
                add(n.test, 'False', 'if')
                add(n.test, 'True', 'if')
        if isinstance(n, ast.IfExp):
            add(n, src(n.orelse), 'ifexp')
            add(n, src(n.body), 'ifexp')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f'{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}', 'compare')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [src(v) for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + op.join(rest) + ')', 'bool operand dropped')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, src(n.operand), 'not')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
            add(n, f"{src(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {src(n.right)}", 'arith')
            add(n, src(n.left), 'arith')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int')
                if n.value:
                    add(n, str(n.value - 1), 'int')
            elif isinstance(n.value, bytes) and n.value:
                add(n, repr(n.value[:-1]), 'bytes')
            elif isinstance(n.value, str) and n.value in SWAPS:
                add(n, repr(SWAPS[n.value]), 'str')
        if isinstance(n, ast.Attribute):
            if n.attr in SWAPS:
                a, b = span(n)
                out.append((b - len(n.attr), b, SWAPS[n.attr], f'{path}:{n.lineno} attr {n.attr} -> {SWAPS[n.attr]}'))
            if n.attr in ALERTS and src(n.value) == 'alerts':
                new = random.Random(f'{path}{n.lineno}').choice([x for x in ALERTS if x != n.attr])
                a, b = span(n)
                out.append((b - len(n.attr), b, new, f'{path}:{n.lineno} alert {n.attr} -> {new}'))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) or (
                isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute)):
            if not (isinstance(n, ast.Expr) and src(n).startswith(('logger', 'key_logger', 'super().__init__'))):
                add(n, 'pass', 'statement')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n.value, 'None', 'return')
        if isinstance(n, ast.Break):
            add(n, 'pass', 'break')
        if isinstance(n, ast.Continue):
            add(n, 'pass', 'continue')
        if isinstance(n, ast.Raise):
            return visit(n.exc) if isinstance(n.exc, ast.Call) else (visit(n.exc) if n.exc else None)
        if isinstance(n, ast.ExceptHandler):
            add(n.type, 'ZeroDivisionError', 'except') if n.type else None
            for s in n.body:
                visit(s)
            return
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', None), ast.Load):
            i = random.Random(f'{path}{n.lineno}').randrange(len(n.elts))
            rest = ', '.join(src(x) for j, x in enumerate(n.elts) if j != i)
            add(n, f'[{rest}]' if isinstance(n, ast.List) else f'({rest},)', 'element dropped')
        if isinstance(n, ast.List) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            e = [src(x) for x in n.elts]
            e[0], e[1] = e[1], e[0]
            add(n, '[' + ', '.join(e) + ']', 'elements swapped')
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in tree.body:
        visit(s)
    res = []
    for a, b, new, what in out:
        t = text[:a] + new + text[b:]
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            continue
        res.append({'file': path, 'what': what, 'a': a, 'b': b, 'new': new})
    return res


def place(m):
    work = pathlib.Path(tempfile.mkdtemp(prefix='mut-', dir='/tmp'))
    shutil.copytree(FROZEN, work / 'repo', ignore=shutil.ignore_patterns('__pycache__', '.git'))
    p = work / 'repo/src/siotls' / m['file']
    t = p.read_text()
    p.write_text(t[:m['a']] + m['new'] + t[m['b']:])
    return work


def test(m):
    work = place(m)
    try:
        cmd = f'''ip link set lo up 2>/dev/null || {PY} -c "
import fcntl,socket,struct
s=socket.socket();fcntl.ioctl(s,0x8914,struct.pack('16sh',b'lo',0x49))"
exec timeout 150 {PY} -B -m pytest tests -q -x -p no:cacheprovider --timeout=60 --disable-warnings --tb=line \
 --deselect tests/test_curl.py::TestCURL::test_curl_keylogfile'''
        r = subprocess.run(['unshare', '-Urn', 'bash', '-c', cmd], cwd=work / 'repo', capture_output=True, text=True,
                           env=ENV | {'PYTHONPATH': str(work / 'repo/src')})
        return r.returncode, r.stdout[-300:]
    finally:
        shutil.rmtree(work)


def check(m, tier='quick'):
    work = place(m)
    try:
        shutil.copytree(VERIF, work / 'verif', ignore=shutil.ignore_patterns('__pycache__', '.git', 'seeded', 'evidence'))
        out = []
        for p in m.get('props') or relevant(m['file']):
            r = subprocess.run(['python3', 'checks/run.py', p, '--quick'], cwd=work / 'verif', timeout=1000,
                               capture_output=True, text=True,
                               env=ENV | {'SIOTLS_SRC': str(work / 'repo/src'), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            out.append((p, r.returncode))
            if r.returncode == 1 and v:
                return True, out
        return False, out
    finally:
        shutil.rmtree(work)


def main():
    STATE.mkdir(exist_ok=True)
    if sys.argv[1] == 'list':
        for f in sorted(PKG.rglob('*.py')):
            p = str(f.relative_to(PKG))
            if not p.startswith(SKIP):
                print(p, len(mutants(p)))
    elif sys.argv[1] == 'make':
        n, seed = int(sys.argv[2]), sys.argv[3]
        every = []
        for f in sorted(PKG.rglob('*.py')):
            p = str(f.relative_to(PKG))
            if p.startswith(SKIP):
                continue
            ms = mutants(p)
            random.Random(seed + p).shuffle(ms)
            w = 40 if p == 'iana.py' else 15 if p == 'contents/alerts.py' else 10**6
            every += ms[:w]
        random.Random(seed).shuffle(every)
        done = {json.loads(x)['what'] for x in open(STATE / 'tested.jsonl')} if (STATE / 'tested.jsonl').exists() else set()
        todo = [m for m in every if m['what'] not in done][:n]
        print(len(every), len(todo))

        def one(m):
            m['rc'], m['out'] = test(m)
            with open(STATE / 'tested.jsonl', 'a') as f:
                f.write(json.dumps(m) + '\n')
        with ThreadPoolExecutor(int(os.environ.get('J', 6))) as ex:
            list(ex.map(one, todo))
    else:
        ms = [json.loads(x) for x in open(STATE / 'tested.jsonl')]
        done = {json.loads(x)['what'] for x in open(STATE / 'checked.jsonl')} if (STATE / 'checked.jsonl').exists() else set()
        for m in ms:
            if m['rc'] == 0 and m['what'] not in done:
                m['caught'], m['checks'] = check(m)
                with open(STATE / 'checked.jsonl', 'a') as f:
                    f.write(json.dumps(m) + '\n')
                print('caught' if m['caught'] else 'SURVIVES', m['what'], m['checks'], flush=True)


main()
