"""Shared machinery: units, case execution, counters, time limits, cleanup."""
import gc
import hashlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
CASE_LIMIT_S = 150      # a case normally takes milliseconds; only non-termination gets here
SHRINK_BUDGET_S = float(os.environ.get('PBT_SHRINK_S', 45))
STOPPED = False


class StopRun(KeyboardInterrupt):
    """Ends the search of a unit (budget used, or another shard failed). Not an Exception: Hypothesis lets it pass."""


class Violation(AssertionError):
    pass


class NoAnswer(Exception):
    pass


def _on_term(sig, frm):
    global STOPPED
    STOPPED = True
    raise StopRun()


def _on_alarm(sig, frm):
    raise NoAnswer(f'no answer within {CASE_LIMIT_S} s')


def install_sigterm():
    signal.signal(signal.SIGTERM, _on_term)


def disarm():
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
    signal.alarm(0)


def freeze():
    gc.collect()
    gc.freeze()


def stable_hash(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:12], 16)


class Unit:
    """A generated check: strategy -> JSON-able case; fn(ctx, case) raises when the property is broken.

    quick / thorough: total number of cases over all shards. budget: seconds per shard."""
    def __init__(self, name, strategy, fn, rule, quick, thorough=None, budget_quick=120, budget_thorough=3600, only_shards=None):
        self.name, self.strategy, self.fn, self.rule = name, strategy, fn, rule
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 15
        self.budget = {'quick': budget_quick, 'thorough': budget_thorough}
        self.only_shards = only_shards

    def count(self, tier, nshards, shard):
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        total = int((self.quick if tier == 'quick' else self.thorough) * scale)
        n = total // nshards + (1 if shard < total % nshards else 0)
        return n


class Case:
    """Per-case context: scratch directory, tracked objects, labels, silenced stdout."""
    counter = 0

    def __init__(self, number, unit_state):
        self.labels = []
        self.is_nontrivial = False
        self._closers = []
        self._dir = None

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='case_', dir=SCRATCH)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text, encoding='utf-8', newline=''):
        p = self.path(name)
        with open(p, 'w', encoding=encoding, newline=newline) as f:
            f.write(text)
        return p

    def track(self, ds):
        self._closers.append(ds)
        return ds

    def __enter__(self):
        Case.counter += 1
        gc.collect()
        random.seed(Case.counter)
        self._stdout, self._stderr = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, et, ev, tb):
        sys.stdout, sys.stderr = self._stdout, self._stderr
        for ds in self._closers:
            try:
                ds.close()
            except Exception:
                pass
        self._closers.clear()
        gc.collect()
        if et is None:
            gc.freeze()  # keeps collections cheap: the search's own data structures grow with every case
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
        return False


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:]]
    return f'{type(e).__name__}: {str(e)[:1200]} @ {" < ".join(reversed(where))}'


class UnitState:
    def __init__(self, unit, tier):
        self.unit = unit
        self.t0 = time.time()
        self.budget = unit.budget[tier]
        self.cases = self.nontrivial = self.shrinking_runs = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.best = None
        self.failed_at = None
        self.budget_exhausted = False

    def execute(self, case):
        case_json = json.dumps(case, sort_keys=True)
        case = json.loads(case_json)
        now = time.time()
        if self.failed_at is not None:
            if now - self.failed_at > SHRINK_BUDGET_S:
                raise StopRun()
            self.shrinking_runs += 1
        elif now - self.t0 > self.budget:
            self.budget_exhausted = True
            raise StopRun()
        else:
            self.cases += 1
        ctx = Case(self.cases, self)
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CASE_LIMIT_S)
        err = None
        try:
            with ctx:
                self.unit.fn(ctx, case)
        except StopRun:
            raise
        except Exception as e:
            err = describe(e)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if STOPPED:  # the interruption might have been taken for a failure by the code under test
            raise StopRun()
        if err is not None:
            if self.failed_at is None:
                self.failed_at = time.time()
            cand = {'unit': self.unit.name, 'case_json': case_json, 'error': err}
            if self.best is None or (len(case_json), case_json) < (len(self.best['case_json']), self.best['case_json']):
                self.best = cand
            if err.startswith('NoAnswer'):
                raise StopRun()
            raise Violation('property broken')
        if self.failed_at is not None:
            return
        for l in set(ctx.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial:
            self.nontrivial += 1
            h = hashlib.sha1((self.unit.name + case_json).encode()).hexdigest()[:14]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 and len(case_json) < 1500:
                    self.samples.append({'unit': self.unit.name, 'case': case})

    def summary(self):
        return {'cases': self.cases, 'nontrivial': self.nontrivial, 'labels': self.labels, 'rule': self.unit.rule,
                'shrinking_runs': self.shrinking_runs, 'budget_exhausted': self.budget_exhausted}


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def raises(fn, *a, **k):
    """True iff the call raises an Exception."""
    try:
        fn(*a, **k)
    except NoAnswer:
        raise
    except Exception:
        return True
    return False
