"""Imports the package under test from /repo's working tree and silences it; helpers for the drivers."""
import os, sys, signal, logging, warnings
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
from common import REPO, BIG
sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd
from datetime import timedelta
import gerabaldi
from gerabaldi.models import *
from gerabaldi.models.random_vars import RandomVar
from gerabaldi import exceptions as gexc
assert os.path.realpath(gerabaldi.__file__).startswith(os.path.realpath(REPO)), gerabaldi.__file__
LOG = logging.getLogger('gerabaldi')


def quiet():
    LOG.setLevel(logging.CRITICAL + 10)
    LOG.disabled = True


quiet()
np.seterr(all='ignore')


class Script(RandomVar):
    """A 'random' variable that hands out a given sequence of values, whatever the sampling pattern."""
    def __init__(self, vals, name=None):
        self._dist_type = 'uniform'
        super().__init__(name=name)
        self.vals = [float(v) for v in vals]
        self.pos = 0

    def sample(self, quantity=1):
        n = len(self.vals)
        out = np.array([self.vals[(self.pos + k) % n] for k in range(quantity)])
        self.pos += quantity
        return out


class Count(RandomVar):
    """Hands out step, 2*step, 3*step, ...: every draw is distinguishable from every other."""
    def __init__(self, step=1, start=0, name=None):
        self._dist_type = 'uniform'
        super().__init__(name=name)
        self.step, self.k = step, start

    def sample(self, quantity=1):
        out = np.array([float(self.step) * (self.k + j + 1) for j in range(quantity)])
        self.k += quantity
        return out


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang('code under test did not return')


class limit:
    """Time limit for one call into the code under test; shrinks once calls have been seen to hang."""
    hung = 0

    def __init__(self, seconds=20):
        self.s = seconds if limit.hung < 2 else min(seconds, 2)

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, kind, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if kind is not None and issubclass(kind, Hang):
            limit.hung += 1


def triple(t):
    """A time span as [days, seconds, microseconds]; anything else is made unmistakable."""
    if isinstance(t, pd.Timedelta):
        t = t.to_pytimedelta()
    if isinstance(t, timedelta):
        return [t.days, t.seconds, t.microseconds]
    if isinstance(t, np.timedelta64):
        return triple(pd.Timedelta(t))
    return [-9, 0, 0]


def td(t):
    return timedelta(days=t[0], seconds=t[1], microseconds=t[2])


def milli(x, scale=1000):
    try:
        x = float(x)
        if not np.isfinite(x):
            return BIG
        v = round(x * scale)
        return int(v) if abs(v) < BIG else BIG
    except (TypeError, ValueError):
        return BIG


def eqn(args, body, **consts):
    """A real python function with the given argument names."""
    ns = {'np': np, **consts}
    exec('def f(' + ', '.join(args) + '):\n    ' + '\n    '.join(body), ns)
    return ns['f']


class Ids:
    """Small integers for exact values."""
    def __init__(self):
        self.m = {}

    def __call__(self, x):
        return self.m.setdefault(repr(x + 0.0 if isinstance(x, float) else x), len(self.m) + 1)


class fixed_generators:
    """While active, generators that are created without a seed get seeds derived from the given label, all different,
    so that statistical observations are the same in every run."""
    def __init__(self, label):
        import zlib
        self.base, self.k = zlib.crc32(str(label).encode()), 0

    def __enter__(self):
        self.orig = np.random.default_rng

        def default_rng(seed=None, *a, **kw):
            if seed is None:
                self.k += 1
                seed = [self.base, self.k, 77]
            return self.orig(seed, *a, **kw)
        np.random.default_rng = default_rng

    def __exit__(self, *a):
        np.random.default_rng = self.orig
