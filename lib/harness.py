"""
Case runner, verdicts, evidence and known findings.

A check module (checks/cNN.py) provides
    PID, LEVEL, RULE, ASSUMPTIONS
    MINIMUM = {'counter': n}      monitors which must have been reached
    cases(tier, seed) -> list of JSON-able specs
    run_case(spec, ctx)           drives the real code; judges with ctx
Cases are spread over forked workers. Every case gets its own PRNG derived from
(seed, property, case) so that `run.py CNN --replay FILE` runs it alone.
"""
import hashlib
import importlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import random
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / 'evidence'
KNOWN = VERIF / 'KNOWN_FINDINGS.jsonl'
CPU_PER_CASE = 60         # seconds of CPU; cases take milliseconds to a few seconds


class NoProgress(BaseException):
    """ A case burnt its whole CPU allowance: the code under test spins. """


class Violated(Exception):
    def __init__(self, mech, detail):
        super().__init__(f'{mech}: {detail}')
        self.mech, self.detail = mech, detail


class Ctx:
    def __init__(self, pid, spec, seed, tier):
        self.pid, self.spec, self.seed, self.tier = pid, spec, seed, tier
        key = f'{seed}:{pid}:{json.dumps(spec, sort_keys=True)}'
        self.rng = random.Random(hashlib.sha256(key.encode()).digest())
        self.counters, self.cover, self.violations, self.samples = {}, set(), [], []
        self.evals = 0

    def eval(self, n=1):
        self.evals += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, *key):
        self.cover.add('|'.join(map(str, key)))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def violation(self, mech, detail='', **extra):
        """ mech: what is broken, without any random value. """
        if len(self.violations) < 5:
            self.violations.append({'mechanism': mech, 'detail': str(detail)[:2000],
                                    'spec': self.spec, **extra})

    def check(self, ok, mech, detail='', **extra):
        self.count('judgements')
        if not ok:
            self.violation(mech, detail() if callable(detail) else detail, **extra)
        return bool(ok)

    def require(self, ok, mech, detail=''):
        """ Like check, and gives up the case. """
        self.count('judgements')
        if not ok:
            raise Violated(mech, detail() if callable(detail) else detail)


def _alarm(signum, frame):
    raise NoProgress


def run_one(mod, spec, seed, tier):
    ctx = Ctx(mod.PID, spec, seed, tier)
    signal.signal(signal.SIGPROF, _alarm)
    t0 = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_PER_CASE', CPU_PER_CASE))
    try:
        mod.run_case(spec, ctx)
    except Violated as v:
        ctx.violation(v.mech, v.detail)
    except NoProgress:
        ctx.violation('no progress', 'the case used its whole CPU allowance\n'
                      + traceback.format_exc()[-1500:])
    except MemoryError:
        ctx.violation('memory exhausted', traceback.format_exc()[-1500:])
    except Exception as exc:
        # an exception which no monitor expected: when it comes out of the
        # library it is a finding, when it is ours it is an error of the check
        tb = traceback.extract_tb(exc.__traceback__)
        inlib = [f for f in tb if '/siotls/' in f.filename]
        if inlib:
            ctx.violation(f'unexpected {type(exc).__name__} in {mod.PID} workload',
                          traceback.format_exc()[-1800:])
        elif isinstance(exc, (OSError, ImportError)):
            return {'error': f'{spec}: {traceback.format_exc()}'}
        else:
            # the workload is deterministic but for the keys: what a
            # monitor or a reference peer cannot digest is a deviation
            ctx.violation(f'the workload cannot proceed: {type(exc).__name__} in '
                          f'{tb[-1].filename.rsplit("/", 1)[-1]}:{tb[-1].name}',
                          traceback.format_exc()[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if os.environ.get('VERIF_PROFILE'):
        with open(os.environ['VERIF_PROFILE'], 'a') as f:
            f.write(f'{time.process_time() - t0:.3f} {json.dumps(spec)}\n')
    return {'evals': ctx.evals, 'counters': ctx.counters, 'cover': ctx.cover,
            'violations': ctx.violations, 'samples': ctx.samples}


_job = None


def _init(memory):
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(chunk):
    mod, seed, tier = _job
    return [(i, run_one(mod, spec, seed, tier)) for i, spec in chunk]


class Workers:
    """
    Forked workers fed one chunk at a time through a pipe of their own: there is
    no lock that one could take to its grave. (multiprocessing.Pool.terminate()
    was seen waiting forever on one.)
    """
    def __init__(self, n, memory, chunks):
        self.memory, self.chunks = memory, iter(chunks)
        self.mp = multiprocessing.get_context('fork')
        self.every, self.busy = [], {}      # pipe -> (process, chunk)
        for _ in range(n):
            self.start()

    def start(self):
        chunk = next(self.chunks, None)
        if chunk is None:
            return
        mine, its = self.mp.Pipe()
        process = self.mp.Process(target=self.work, args=(its, mine), daemon=True)
        process.start()
        self.every.append(process)
        its.close()
        self.busy[mine] = process, chunk
        mine.send(chunk)

    def work(self, pipe, other):
        for fd in (other, *self.busy):
            fd.close()
        _init(self.memory)
        while (chunk := pipe.recv()) is not None:
            pipe.send(_work(chunk))

    def results(self, deadline):
        """ The results of each chunk; None once the deadline is over. """
        while self.busy:
            ready = multiprocessing.connection.wait(list(self.busy), max(0, deadline - time.monotonic()))
            if not ready:
                yield None
                return
            for pipe in ready:
                process, chunk = self.busy.pop(pipe)
                try:
                    result = pipe.recv()
                except (EOFError, OSError):
                    process.join()
                    yield [(i, {'error': f'a worker died ({process.exitcode}) on one of {chunk}'}) for i, _ in chunk[:1]]
                    self.start()
                    continue
                chunk = next(self.chunks, None)
                pipe.send(chunk)
                if chunk is not None:
                    self.busy[pipe] = process, chunk
                yield result

    def stop(self):
        for process in self.every:
            process.kill()
        for process in self.every:
            process.join()


def quiet():
    logging.getLogger('siotls').setLevel(logging.CRITICAL + 1)
    logging.getLogger('siotls.keylog').setLevel(logging.DEBUG)
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    logging.raiseExceptions = False
    warnings.simplefilter('ignore')


def load_known():
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.strip():
                out.append(json.loads(line))
    return out


def jsonable(o):
    if isinstance(o, (bytes, bytearray)):
        return bytes(o).hex()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def main(argv):
    pid = argv[0]
    quiet()
    mod = importlib.import_module(f'checks.{pid.lower()}')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    t0 = time.monotonic()
    replay = None
    if '--replay' in argv:
        replay = json.loads(pathlib.Path(argv[argv.index('--replay') + 1]).read_text())
        seed, tier = replay['seed'], replay['tier']
        specs = [replay['spec']]
    else:
        specs = list(mod.cases(tier, seed))
    if hasattr(mod, 'prepare'):
        mod.prepare(tier, seed)
    deadline = t0 + (getattr(mod, 'WALL', {}).get(tier) or (500 if tier == 'quick' else 780))

    global _job
    _job = (mod, seed, tier)
    nproc = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
    nproc = min(nproc, getattr(mod, 'JOBS', 8))
    evals, counters, cover, violations, samples, errors, done = 0, {}, set(), [], [], [], 0
    listed_mechs = {k['mechanism'] for k in load_known() if k.get('property') == pid and k.get('status') == 'known'}

    def merge(i, r):
        nonlocal evals, done
        done += 1
        if 'error' in r:
            errors.append(r['error'])
            return
        evals += r['evals']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        cover.update(r['cover'])
        violations.extend(r['violations'])
        if len(samples) < 6:
            samples.extend(r['samples'] or [{'case': specs[i], 'observed': r['counters']}])

    cut = False
    if nproc <= 1 or len(specs) == 1:
        for i, spec in enumerate(specs):
            if time.monotonic() > deadline:
                cut = True
                break
            merge(i, run_one(mod, spec, seed, tier))
    else:
        order = list(enumerate(specs))
        random.Random(seed).shuffle(order)     # spread the heavy ones
        size = getattr(mod, 'CHUNK', 0) or max(1, min(16, len(order) // (nproc * 8)))
        chunks = [order[k:k + size] for k in range(0, len(order), size)]
        workers = Workers(nproc, getattr(mod, 'MEMORY', 4 << 30), chunks)
        try:
            for results in workers.results(deadline):
                if results is None:
                    cut = True
                    break
                for i, r in results:
                    merge(i, r)
                new = sum(v['mechanism'] not in listed_mechs for v in violations)
                if new >= 40 or new and time.monotonic() > t0 + 240:
                    cut = True
                    break
        finally:
            workers.stop()
    if replay is None and hasattr(mod, 'finish'):
        mod.finish(counters, cover, lambda m, d: violations.append(
            {'mechanism': m, 'detail': d, 'spec': None}))

    # ---- verdict
    EVIDENCE.mkdir(exist_ok=True)
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    listed, new = {}, []
    for v in violations:
        k = next((k for k in known if k['mechanism'] == v['mechanism']), None)
        if k:
            listed.setdefault(k['mechanism'], k)
        else:
            new.append(v)
    for k in listed.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rc = 0
    shown = set()
    for v in new:
        if v['mechanism'] in shown:
            continue
        shown.add(v['mechanism'])
        tag = hashlib.sha256(v['mechanism'].encode()).hexdigest()[:8]
        path = EVIDENCE / 'replay' / f'{pid}-{tag}.json'
        path.parent.mkdir(exist_ok=True)
        path.write_text(json.dumps({'property': pid, 'seed': seed, 'tier': tier, **v},
                                   indent=1, default=jsonable))
        print(f'VIOLATION property={pid} replay={path}')
        print(f"  {v['mechanism']}: {v['detail'][:600]}")
        rc = 1
        if len(shown) >= 8:
            break
    missing = {}
    if replay is None:
        for k, n in getattr(mod, 'MINIMUM', {}).items():
            if counters.get(k, 0) < n:
                missing[k] = (counters.get(k, 0), n)
        doc = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(cover), 'rule': mod.RULE,
                'samples': samples[:6], 'cases': len(specs), 'cases_run': done,
                'cut_short': cut, 'observed': dict(sorted(counters.items())),
                'distinct_sample': sorted(cover)[:: max(1, len(cover) // 40)][:40],
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.monotonic() - t0, 2),
            'violations': len(new),
            'known_findings': sorted(listed),
        }
        (EVIDENCE / f'{pid}.json').write_text(json.dumps(doc, indent=1, default=jsonable))
    if rc == 0 and errors:
        print('CHECK-ERROR', errors[0], file=sys.stderr)
        rc = 2
    elif errors:
        print('CHECK-ERROR', errors[0][-1500:], file=sys.stderr)
    if rc == 0 and missing:
        print(f'INCONCLUSIVE {pid}: monitors not reached enough: {missing}', file=sys.stderr)
        rc = 3
    print(f'{pid} {tier} seed={seed}: {evals} evaluations, {len(cover)} distinct, '
          f'{len(new)} violations, {len(errors)} errors, {time.monotonic() - t0:.1f}s')
    return rc
