"""Common machinery of all checks.

A check module (harness/cNN.py) defines run(chk).  It

  * runs TLC on a specification in /verif/spec (chk.tlc) -- the model is
    checked, and TLC exports behaviours / cases as JSON,
  * replays them into the real empymod (imported from /repo) and/or records
    executions of the real empymod and has TLC validate them,
  * reports disagreement with chk.violation(...).

Exit status: 0 held, 1 violated (with VIOLATION line), 2 machinery failure.
"""
import contextlib
import io
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
TLAJARS = ('/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar')
MARK = '@C'


class Machinery(Exception):
    """The machinery (not the code under test) failed."""


class Violated(Exception):
    """Raised to stop at the first violations (enough collected)."""


def setup_env(scratch, jit):
    """Environment of the process that imports empymod."""
    for d in ('pyc', 'numba', 'mpl', 'tmp'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    e = os.environ
    e['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    sys.pycache_prefix = e['PYTHONPYCACHEPREFIX']
    e['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    e['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    e['TMPDIR'] = os.path.join(scratch, 'tmp')
    tempfile.tempdir = None
    e['MPLBACKEND'] = 'Agg'
    for k in ('OMP', 'OPENBLAS', 'MKL', 'NUMBA'):
        e[k+'_NUM_THREADS'] = '1'
    e['PYTHONHASHSEED'] = '0'
    if jit:
        e.pop('NUMBA_DISABLE_JIT', None)
    else:
        e['NUMBA_DISABLE_JIT'] = '1'


class Check:
    def __init__(self, pid, level, jit=False):
        self.pid = pid
        self.level = level
        self.jit = jit
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed*1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        setup_env(self.scratch, jit)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = []
        self.maxviol = 5
        self.ratdir = None
        self.child = None
        fn = os.path.join(VERIF, 'known_findings.json')
        with open(fn) as f:
            self.known = [k for k in json.load(f)['findings']
                          if k['property'] == pid]

    # ------------------------------------------------------------ time
    def elapsed(self):
        return time.time() - self.t0

    def left(self, budget_quick, budget_thorough):
        b = budget_thorough if self.thorough else budget_quick
        return b - self.elapsed()

    # ------------------------------------------------------------ reporting
    def case(self, key, sample=None, n=1):
        """Account for one replayed case / validated trace."""
        self.evals += n
        self.distinct.add(key if isinstance(key, (str, int))
                          else json.dumps(key, sort_keys=True, default=str))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def violation(self, what, detail=None, key=None):
        """Report a disagreement of the code with the property.

        `key` identifies the failing input/call site/history; if listed in
        known_findings.json it is a known finding.
        """
        if self.child is not None:
            if key is not None and any(k['key'] == key for k in self.known):
                if key in self.child['known']:
                    return
                self.child['known'].add(key)
                self.child['viol'].append((what, detail, key))
                return
            self.child['viol'].append((what, detail, key))
            self.child['n'] += 1
            if self.child['n'] >= self.maxviol:
                raise Violated()
            return
        for k in self.known:
            if key is not None and key == k['key']:
                if k['key'] not in self.known_hit:
                    self.known_hit.append(k['key'])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        self.viol.append((what, detail))
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f'{self.pid}-{len(self.viol)}.json')
        with open(fn, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'detail': detail,
                       'seed': self.seed, 'tier': self.tier}, f, indent=1,
                      default=repr)
        print(f"  {what}")
        if detail is not None:
            print('    ' + json.dumps(detail, default=repr)[:1500])
        print(f"VIOLATION property={self.pid} replay={fn}", flush=True)
        if len(self.viol) >= self.maxviol:
            raise Violated()

    def check(self, ok, what, detail=None, key=None):
        if not ok:
            self.violation(what, detail, key)
        return ok

    # ------------------------------------------------------------ parallel
    def parallel(self, fn, items, budget=None, nproc=7):
        """Run fn(item) for all items in forked workers; returns #done.

        Workers stop at `budget` seconds since the start of the check.  On a
        busy machine this is time of the processor: they can take up to four
        times as long (and get at least 20 s if the budget is used up already),
        as long as the check does not take too long altogether.  Their cases
        and violations are merged into this process.
        """
        if budget is not None:
            q = budget - self.elapsed()
            if q < 3:
                q = 20
            budget = (q, min(self.elapsed() + 4*q,
                             max(600, self.elapsed() + 5), 850))
            if self.thorough:
                budget = (q, min(self.elapsed() + q, 850))
        items = list(items)
        nproc = max(1, min(nproc, len(items)))
        jobs = []
        sys.stdout.flush()
        for w in range(nproc):
            path = os.path.join(self.scratch, f'worker-{time.time_ns()}-{w}')
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    self._worker(fn, items[w::nproc], w, budget, path)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                    code = 3
                os._exit(code)
            jobs.append((pid, path))
        done = 0
        viol = []
        bad = []
        for pid, path in jobs:
            _, st = os.waitpid(pid, 0)
            if st != 0 or not os.path.exists(path):
                bad.append((pid, st))
                continue
            with open(path, 'rb') as f:
                r = pickle.load(f)
            os.remove(path)
            done += r['done']
            self.evals += r['evals']
            self.traces += r['traces']
            self.distinct |= r['distinct']
            for k, v in r['extra'].items():
                if isinstance(v, int) and not isinstance(v, bool):
                    self.extra[k] = self.extra.get(k, 0) + v
            self.samples = (self.samples + r['samples'])[:4]
            viol += r['viol']
        for v in viol:
            self.violation(*v)
        if bad and not self.viol:
            raise Machinery(f'workers failed: {bad}')
        return done

    def _worker(self, fn, items, w, budget, path):
        self.child = {'viol': [], 'known': set(), 'n': 0}
        self.rng = random.Random(self.rng.random()*(w+1))
        self.evals = self.traces = 0
        self.distinct, self.samples, self.extra = set(), [], {}
        done = 0
        cpu = sum(os.times()[:4])
        try:
            for it in items:
                if budget is not None and (
                        sum(os.times()[:4]) - cpu > budget[0] or
                        self.elapsed() > budget[1]):
                    break
                try:
                    fn(it)
                except (Violated, Machinery):
                    raise
                except Exception as e:
                    if in_repo(e.__traceback__):
                        what = 'unexpected exception in empymod'
                    elif unusable(e):
                        what = 'the result cannot be evaluated'
                    else:
                        raise
                    self.violation(f'{what}: {type(e).__name__}: {e}',
                                   dict(item=it, tb=traceback.format_exc()))
                done += 1
        except Violated:
            pass
        viol = [(a, json.loads(json.dumps(b, default=repr)), c)
                for a, b, c in self.child['viol']]
        with open(path+'.tmp', 'wb') as f:
            pickle.dump(dict(done=done, evals=self.evals, traces=self.traces,
                             distinct=self.distinct, samples=json.loads(
                                 json.dumps(self.samples, default=repr)),
                             extra=self.extra, viol=viol), f)
        os.rename(path+'.tmp', path)

    # ------------------------------------------------------------ TLC
    def _rat(self):
        """Compile the exact-arithmetic overrides (big rationals) for TLC."""
        if self.ratdir is None:
            d = os.path.join(self.scratch, 'rat')
            os.makedirs(d)
            r = subprocess.run(
                ['javac', '-cp', TLAJARS, '-d', d,
                 os.path.join(SPEC, 'java', 'Rat.java')],
                capture_output=True, text=True)
            if r.returncode:
                raise Machinery('javac: ' + r.stderr)
            self.ratdir = d
        return self.ratdir

    def tlc_start(self, module, cfg=None, files=None, consts=None,
                  simulate=None, depth=None, workers=None, rat=False,
                  mem='3g', view=None, deadlock=False, extra=()):
        """Start TLC in the background; returns a handle for tlc_wait.

        files: {name: text} additional files put beside the module (trace
        data, generated constants); cfg: text of the configuration.
        """
        wd = tempfile.mkdtemp(prefix=f'tlc-{module}-', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), wd)
        if cfg is None:
            with open(os.path.join(SPEC, module+'.cfg')) as f:
                cfg = f.read()
        if consts:
            cfg += '\nCONSTANTS\n' + '\n'.join(
                f'  {k} = {v}' for k, v in consts.items()) + '\n'
        with open(os.path.join(wd, module+'.cfg'), 'w') as f:
            f.write(cfg)
        for n, t in (files or {}).items():
            with open(os.path.join(wd, n), 'w') as f:
                f.write(t)
        cp = TLAJARS
        if rat:
            cp = self._rat() + ':' + cp
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx'+mem, '-Xss16m',
               '-XX:TieredStopAtLevel=4', '-cp', cp, 'tlc2.TLC',
               '-config', module+'.cfg', '-metadir', os.path.join(wd, 'st'),
               '-noGenerateSpecTE', '-workers', str(workers or 4),
               '-seed', str(self.seed), '-fp', '1']
        if not deadlock:
            cmd += ['-deadlock']
        if simulate:
            cmd += ['-simulate', f'num={simulate}']
            if depth:
                cmd += ['-depth', str(depth)]
        cmd += list(extra) + [module+'.tla']
        out = open(os.path.join(wd, 'out.txt'), 'w')
        p = subprocess.Popen(cmd, cwd=wd, stdout=out,
                             stderr=subprocess.STDOUT)
        return dict(p=p, wd=wd, module=module, simulate=simulate)

    def tlc_wait(self, h, timeout=600, expect_ok=True):
        """Wait; returns dict(ok, cases, states, distinct, out, verdict)."""
        try:
            h['p'].wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            h['p'].kill()
            raise Machinery(f"TLC on {h['module']} timed out")
        with open(os.path.join(h['wd'], 'out.txt')) as f:
            text = f.read()
        cases = []
        rest = []
        raw = []
        for line in text.splitlines():
            (raw if line.startswith('"'+MARK) else rest).append(line)
        # Sorted, as the order depends on the scheduling of the workers.
        for line in sorted(raw):
            try:
                cases.append(json.loads(json.loads(line)[len(MARK):]))
            except ValueError as e:
                raise Machinery(f'bad case line {line[:200]}: {e}')
        rest = '\n'.join(rest)
        m = re.findall(r'(\d+) states generated, (\d+) distinct', rest)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if h['simulate']:
            m = re.findall(r'(\d+) states checked', rest)
            gen = dis = int(m[-1]) if m else gen
        ok = h['p'].returncode == 0
        violated = h['p'].returncode in (10, 11, 12, 13)
        if not ok and not violated:
            raise Machinery(f"TLC on {h['module']} failed "
                            f"({h['p'].returncode}):\n{rest[-3000:]}")
        if expect_ok and not ok:
            raise Machinery(f"specification {h['module']} violates its own "
                            f"properties:\n{rest[-3000:]}")
        self.states += dis
        self.transitions += gen
        shutil.rmtree(h['wd'], ignore_errors=True)
        return dict(ok=ok, cases=cases, states=dis, transitions=gen, out=rest)

    def tlc(self, module, timeout=600, expect_ok=True, **kw):
        return self.tlc_wait(self.tlc_start(module, **kw), timeout, expect_ok)

    # ------------------------------------------------------------ finish
    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces or self.evals,
               'evaluations': self.evals,
               'distinct_nontrivial': len(self.distinct),
               'samples': self.samples or ['(none)']}
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time()-self.t0, 2),
                  violations=len(self.viol))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid+'.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)


def in_repo(tb):
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(REPO + '/empymod'):
            return True
    return False


def unusable(e):
    """Is this about what the code returned, and not about the machine?

    A comparison which cannot even be carried out (no value where there has
    to be one, another type or shape): on the code as it is there is none.
    """
    if isinstance(e, AttributeError):
        return not str(e).startswith('module ')
    return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError,
                          AssertionError, StopIteration))


def main(pid, run, level='model_checking', jit=False):
    chk = Check(pid, level, jit)
    code = 2
    try:
        try:
            run(chk)
        except Violated:
            pass
        except Machinery:
            raise
        except Exception as e:
            if in_repo(e.__traceback__) or unusable(e):
                try:
                    chk.violation(
                        ('unexpected exception in empymod: '
                         if in_repo(e.__traceback__) else
                         'the result cannot be evaluated: ') +
                        f'{type(e).__name__}: {e}',
                        traceback.format_exc())
                except Violated:
                    pass
            else:
                raise
        chk.evidence()
        code = 1 if chk.viol else 0
        print(f"{pid}: {'VIOLATED' if chk.viol else 'held'}; "
              f"{chk.states} states, {chk.evals} evaluations, "
              f"{len(chk.distinct)} distinct, {time.time()-chk.t0:.1f} s")
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(chk.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


# ---------------------------------------------------------------- helpers

@contextlib.contextmanager
def captured():
    """Capture stdout."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


class Out:
    """Outcome of calling the code under test."""

    def __init__(self, value=None, exc=None, text=''):
        self.value, self.exc, self.text = value, exc, text

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is not None:
            return f'raised {type(self.exc).__name__}: {self.exc}'
        return f'returned {self.value!r}'


def call(fn, *a, **k):
    """Call the code under test, capture value or exception and stdout."""
    import warnings
    with captured() as buf, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return Out(fn(*a, **k), None, buf.getvalue())
        except Exception as e:
            o = Out(None, e, '')
    o.text = buf.getvalue()
    return o


def frac(s):
    """'3/5' -> float."""
    from fractions import Fraction
    return Fraction(s)


def close(a, b, rtol=1e-8, atol=0.0, scale=None):
    """Element-wise closeness relative to the largest magnitude involved."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        a, b = a[fa], b[fb]
        if a.size == 0:
            return True
    s = np.maximum(np.abs(a), np.abs(b)) if scale is None else scale
    return bool(np.all(np.abs(a-b) <= rtol*s + atol))


def relerr(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} vs {b.shape}'
    d = np.max(np.abs(a-b)) if a.size else 0
    s = max(np.max(np.abs(a)), np.max(np.abs(b))) if a.size else 1
    return float(d/s) if s else float(d)
