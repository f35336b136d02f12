"""Property runner: hypothesis drives JSON-able cases through an oracle.

A check module (checks/<id>.py) defines

    PID, RULE, ASSUMPTIONS
    PARTS = [Part(...), ...]

A part has a strategy of JSON-able cases and `run(case, rec)`, which raises
Violation when the property is broken on that case.  Everything random comes from
hypothesis, seeded by VERIF_SEED and the worker number.
"""
import contextlib
import dataclasses
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

from . import boot


class Violation(Exception):
    """The property does not hold on this case."""


class _Stop(BaseException):
    pass


@contextlib.contextmanager
def sut(what: str):
    """Code under test runs here: an exception that escapes it breaks the property
    (the caller has made sure that the input is one that has to be handled)."""
    try:
        yield
    except (Violation, _Stop):
        raise
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb if boot.REPO in f.filename][-3:]
        raise Violation(f'{what}: raised {type(e).__name__}: {str(e)[:300]} (at {" > ".join(where)})') from e


def require(cond, msg: str):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@dataclasses.dataclass
class Part:
    name: str
    strategy: Callable[[], Any]          # () -> hypothesis strategy
    run: Callable[[Any, 'Recorder'], None]
    quick: int = 100                     # cases per worker
    thorough: int = 1000
    fixed: List[Any] = dataclasses.field(default_factory=list)   # regression cases, run first


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.labels: Dict[str, int] = {}
        self.hashes = set()
        self.samples = []
        self._nt = False
        self._lab = set()

    def begin(self):
        self._nt = False
        self._lab = set()

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, name, cond=True):
        if cond:
            self._lab.add(str(name))

    def end(self, part, case):
        self.evaluations += 1
        for l in self._lab:
            k = f'{part}:{l}'
            self.labels[k] = self.labels.get(k, 0) + 1
        if self._nt:
            h = case_hash([part, case])
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (3, 10, 40, 160):
                    s = json.dumps(case, default=str)
                    self.samples.append({'part': part, 'case': case if len(s) < 1500 else s[:1500] + '...',
                                         'labels': sorted(self._lab)})


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


FAST = os.environ.get('KV_FAST') == '1'      # for tools/automut.py: the first failing case will do


def run_one(part: Part, case, rec: Recorder):
    rec.begin()
    try:
        part.run(case, rec)
    except (KeyError, IndexError, ValueError, FileNotFoundError, AssertionError, ZeroDivisionError) as e:
        # the oracle could not make sense of what the code under test has produced
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)][-3:]
        raise Violation(f'the result has not the form it has to have: {type(e).__name__}: {str(e)[:300]} (at {" > ".join(where)})') from e
    finally:
        rec.end(part.name, case)


def run_part(part: Part, seed: int, n: int, rec: Recorder, gen_budget_s: float, shrink_budget_s: float):
    """Returns None or (case, message)."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase

    for case in part.fixed:
        try:
            run_one(part, case, rec)
        except Violation as e:
            return case, f'(fixed case) {e}'

    best: Dict[str, Any] = {}
    t0 = time.monotonic()

    def test(case):
        case = json.loads(json.dumps(case))     # what a replay file holds
        now = time.monotonic()
        if 'case' in best and now - best['t'] > shrink_budget_s:
            raise _Stop()
        if 'case' not in best and now - t0 > gen_budget_s:
            raise _Stop()
        try:
            run_one(part, case, rec)
        except Violation as e:
            size = len(json.dumps(case))
            if 'case' not in best:
                best['t'] = now
            if 'case' not in best or size <= best['size']:
                best.update(case=case, size=size, msg=str(e))
            raise

    wrapped = hypothesis.given(part.strategy())(test)
    wrapped = hypothesis.seed(seed)(wrapped)
    wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                       report_multiple_bugs=False, print_blob=False,
                       phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
                       suppress_health_check=list(HealthCheck))(wrapped)
    try:
        wrapped()
    except _Stop:
        rec.label('budget')
        rec.labels[f'{part.name}:stopped-by-time'] = 1
    except Violation:
        pass
    except BaseException as e:
        # a flaky report after a recorded violation still is that violation, if it reproduces
        if 'case' not in best:
            raise
    if 'case' in best:
        return best['case'], best['msg']
    return None


# ----------------------------------------------------------------------------------------

def load_check(pid):
    import importlib
    return importlib.import_module(f'checks.{pid.lower()}')


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def worker_main(pid, worker, out_path):
    """Runs all parts of a check in this process."""
    mod = load_check(pid)
    boot.quiet()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t = tier()
    rec = Recorder()
    res = {'violation': None}
    for i, part in enumerate(mod.PARTS):
        n = part.quick if t == 'quick' else part.thorough
        if n <= 0:
            continue
        p = part if worker == 0 else dataclasses.replace(part, fixed=[])
        gb = (getattr(mod, 'GEN_BUDGET', 240) if t == 'quick' else 1500) / max(1, len(mod.PARTS))
        v = run_part(p, seed * 1000003 + worker * 1009 + i, n, rec, gb, 60 if t == 'quick' else 240)
        if v is not None:
            res['violation'] = {'property': pid, 'part': part.name, 'case': v[0], 'message': v[1]}
            break
    findings = []
    if worker == 0 and res['violation'] is None:
        for f in known_findings(pid):
            if f.get('status') != 'finding':
                continue
            part = next(p for p in mod.PARTS if p.name == f['part'])
            finder = getattr(mod, 'run_finding', None)
            try:
                if finder:
                    finder(f, Recorder())
                else:
                    part.run(f['case'], Recorder())
                findings.append((f, None))
            except Violation as e:
                findings.append((f, str(e)))
    res.update(evaluations=rec.evaluations, labels=rec.labels, hashes=sorted(rec.hashes), samples=rec.samples,
               findings=findings)
    with open(out_path, 'w') as fh:
        json.dump(res, fh, default=str)


def known_findings(pid):
    path = os.path.join(boot.VERIF, 'known_findings.jsonl')
    out = []
    if os.path.isfile(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line and not line.startswith('#'):
                    d = json.loads(line)
                    if d['property'] == pid:
                        out.append(d)
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args(argv)
    boot.setup_paths()
    if a.setup:
        import hypothesis
        boot.ensure_generated()
        print('ready: hypothesis', hypothesis.__version__)
        return 0
    pid = a.pid.upper()

    if a.worker is not None:
        worker_main(pid, a.worker, a.out)
        return 0

    boot.ensure_generated()

    if a.replay:
        with open(a.replay) as fh:
            r = json.load(fh)
        mod = load_check(pid)
        boot.quiet()
        part = next(p for p in mod.PARTS if p.name == r['part'])
        try:
            run_one(part, r['case'], Recorder())
        except Violation as e:
            print(f'{e}')
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        print('no violation on this case')
        return 0

    t0 = time.monotonic()
    mod = load_check(pid)
    t = tier()
    workers = a.workers or (getattr(mod, 'WORKERS', 6) if t == 'quick' else 8)
    env = dict(os.environ)
    env.setdefault('PYTHONHASHSEED', '0')
    env['MPLBACKEND'] = 'Agg'
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    results, failed = [], []
    with tempfile.TemporaryDirectory(prefix='kv-', ignore_cleanup_errors=True) as td:
        procs = []
        for w in range(workers):
            out = os.path.join(td, f'r{w}.json')
            err = open(os.path.join(td, f'e{w}.txt'), 'w')
            wd = os.path.join(td, f'w{w}')
            os.makedirs(os.path.join(wd, 'tmp'))
            wenv = dict(env, TMPDIR=os.path.join(wd, 'tmp'), HOME=wd, KV_WORKDIR=wd)
            procs.append((w, out, err, subprocess.Popen(
                [sys.executable, '-B', os.path.join(boot.VERIF, 'run.py'), pid, '--worker', str(w), '--out', out],
                stdout=err, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=wenv, cwd=wd)))
        while FAST and any(p.poll() is None for _, _, _, p in procs):
            time.sleep(0.2)
            for _, out, _, p in procs:
                if p.poll() is not None and os.path.isfile(out):
                    with open(out) as fh:
                        if json.load(fh)['violation']:
                            for q in procs:
                                q[3].kill()
        limit = time.monotonic() + (820 if t == 'quick' else 6 * 3600)
        for w, out, err, p in procs:
            try:
                rc = p.wait(timeout=max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            err.close()
            if FAST and rc == -9:
                continue
            if rc != 0 or not os.path.isfile(out):
                with open(err.name) as fh:
                    failed.append((w, rc, fh.read()[-3000:]))
            else:
                with open(out) as fh:
                    results.append(json.load(fh))

    violations = [r['violation'] for r in results if r['violation']]
    labels: Dict[str, int] = {}
    hashes = set()
    samples = []
    ev = 0
    for r in results:
        ev += r['evaluations']
        hashes.update(r['hashes'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples += r['samples'][:3]
    evidence = {
        'property': pid, 'tier': t, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': mod.RULE,
            'samples': samples[:8] if samples else [{'note': 'none recorded'}],
            'classes': dict(sorted(labels.items())), 'workers': len(results),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    if violations:
        violations.sort(key=lambda v: len(json.dumps(v['case'])))
        v = violations[0]
        rd = os.path.join(boot.VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}-{v['part']}-{case_hash(v['case'])}.json")
        with open(rp, 'w') as fh:
            json.dump(v, fh, indent=1)
        print(f"{pid} [{v['part']}]: {v['message']}")
        s = json.dumps(v['case'])
        print(f"case: {s[:2000]}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if failed:
        for w, rc, txt in failed:
            print(f'worker {w} ended with {rc}:\n{txt}', file=sys.stderr)
        return 2
    for r in results:
        for f, msg in r['findings']:
            if msg is not None:
                print(f"KNOWN-FINDING: property={pid} {f['id']}: {f['summary']}")
            else:
                print(f"note: known finding {f['id']} of {pid} no longer fails")
    print(f'{pid} ok: {ev} cases, {len(hashes)} distinct non-trivial, {evidence["wall_s"]} s')
    return 0
