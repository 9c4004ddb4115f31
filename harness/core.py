"""Shared machinery of the checks: replaying behaviours on the real code, verdicts and evidence."""
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import tlc as tlcmod

HERE = tlcmod.HERE
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
CASE_SECONDS = 120


class Mismatch(Exception):
    """The real code does not do what the specification says."""


def ensure(cond, *msg):
    if not cond:
        raise Mismatch(' '.join(str(m) for m in msg))


def near(a, b, scale=1.0, rel=1e-9):
    """a and b agree up to rounding; scale is the magnitude of the quantities the value was computed from"""
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= rel * max(scale, abs(a), abs(b))


def near_xy(a, b, scale=1.0, rel=1e-9):
    a = tuple(a)
    b = tuple(b)
    return len(a) == 2 and near(a[0], b[0], scale, rel) and near(a[1], b[1], scale, rel)


def raises(exc, fn, *args, **kw):
    """Call fn; require that it raises exc (an exception class or tuple)"""
    try:
        r = fn(*args, **kw)
    except exc:
        return True
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch('expected %s, got %s: %s' % (exc, type(e).__name__, e))
    raise Mismatch('expected %s, got result %r' % (exc, r))


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


_JOBS = None
_FN = None


def _one(i):
    beh, variant = _JOBS[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        n = _FN(beh, variant)
        return i, None, n or 0
    except Mismatch as e:
        return i, str(e), 0
    except _Timeout:
        return i, 'no result within %d s' % CASE_SECONDS, 0
    except Exception as e:
        return i, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6)), 0
    finally:
        signal.alarm(0)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.steps = 0
        self.samples = []
        self.cover = {}
        self.failures = []
        self.notes = {}
        self.assumptions = []
        self.cmds = []
        self.exhaustive_models = []
        self.ops = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ----------------------------------------------------------------------------------------------------
    def took(self, run, name, exhaustive=False):
        self.states += run.states
        self.transitions += run.transitions
        self.cmds += run.cmds
        if exhaustive:
            self.exhaustive_models.append(dict(model=name, states=run.states, transitions=run.transitions))
        return run.behaviours

    def mc(self, module, cfg, name=None, **kw):
        """Exhaustive model checking of a small configuration"""
        run = tlcmod.tlc(module, cfg, **kw)
        return self.took(run, name or module, True)

    def sim(self, module, cfg, num, depth, name=None, procs=4, **kw):
        """Seeded random behaviours of a larger configuration"""
        run = tlcmod.simulate(module, cfg, num, depth, self.seed, procs=procs, **kw)
        return self.took(run, name or module)

    # -- replay -------------------------------------------------------------------------------------------------
    def replay(self, name, behaviours, fn, variants=(None,), each=True, procs=NPROC):
        """Replay every behaviour on the real code.  each: with every variant, otherwise variants in rotation"""
        global _JOBS, _FN
        if not behaviours:
            raise tlcmod.TlcError('no behaviours to replay for %s' % name)
        jobs = []
        for i, b in enumerate(behaviours):
            for v in (variants if each else [variants[i % len(variants)]]):
                jobs.append((b, v))
        _JOBS, _FN = jobs, fn
        bad = []
        steps = 0
        sys.stdout.flush()
        with mp.get_context('fork').Pool(procs) as pool:
            for i, err, n in pool.imap_unordered(_one, range(len(jobs)), chunksize=max(1, min(64, len(jobs) // (procs * 4) or 1))):
                steps += n
                if err is None:
                    self.validated += 1
                else:
                    bad.append((i, err))
                    if len(bad) >= 20:
                        pool.terminate()
                        break
        self.steps += steps
        self.cover[name] = self.cover.get(name, 0) + len(jobs)
        for b in behaviours[:2]:
            if len(self.samples) < 6:
                s = json.dumps(b)
                self.samples.append(dict(source=name, behaviour=b if len(s) < 3000 else s[:3000] + '...'))
        bad.sort(key=lambda f: (len(json.dumps(jobs[f[0]][0])), f[0]))
        for i, err in bad:
            self.failures.append(dict(source=name, error=err, behaviour=jobs[i][0], variant=jobs[i][1]))
        return not bad

    def count_ops(self, behaviours, key='op'):
        for b in behaviours:
            for s in b:
                if isinstance(s, dict) and key in s:
                    self.ops[s[key]] = self.ops.get(s[key], 0) + 1

    def need_ops(self, *names):
        """Vacuity guard: every named action must have been exercised"""
        missing = [n for n in names if not self.ops.get(n)]
        if missing:
            raise tlcmod.TlcError('actions never exercised: %s' % ', '.join(missing))

    def fail(self, source, error, behaviour=None, variant=None):
        self.failures.append(dict(source=source, error=error, behaviour=behaviour, variant=variant))

    # -- verdict ------------------------------------------------------------------------------------------------
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line and line.startswith('{'):
                        k = json.loads(line)
                        if k.get('property') == self.prop and k.get('status') == 'known':
                            out.append(k)
        return out

    def finish(self, level='model_checking', technique=None):
        known = self.known()
        fresh = []
        for f in self.failures:
            hit = [k for k in known if k.get('signature') and k['signature'] in f['error']]
            if not hit:
                fresh.append(f)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        replay = None
        if fresh:
            f = fresh[0]
            replay = os.path.join(EVIDENCE, 'replay', '%s.json' % self.prop)
            with open(replay, 'w') as fh:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **f), fh, indent=1, default=str)
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ['none'],
                   replayed_steps=self.steps, replayed_per_source=self.cover,
                   actions_exercised=self.ops, exhaustive_models=self.exhaustive_models, checker_cmds=self.cmds[:12])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        with open(os.path.join(EVIDENCE, '%s.json' % self.prop), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s: %d states, %d transitions, %d behaviours replayed (%d steps), %.1f s' % (
            self.prop, self.states, self.transitions, self.validated, self.steps, wall))
        if fresh:
            for f in fresh[:5]:
                print('  [%s] variant=%s: %s' % (f['source'], f['variant'], f['error'].strip()[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        return 0


def fr(n, q=1):
    return Fraction(n, q)
