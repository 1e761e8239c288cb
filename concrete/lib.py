"""support for the bounded execution part: trials over the really built code"""
import random, os, shutil, tempfile
import numpy as np

TRIALS = []
NOTE = {}
_tmp = []


class Skip(Exception):
    pass


class Trial:
    def __init__(self, name, fn, weight, min_runs, max_runs):
        self.name, self.fn, self.weight, self.min_runs, self.max_runs = name, fn, weight, min_runs, max_runs


def trial(weight=1.0, min_runs=20, max_runs=100000, name=None):
    def deco(f):
        TRIALS.append(Trial(name or f.__name__, f, weight, min_runs, max_runs))
        return f
    return deco


def note(**k):
    NOTE.update(k)


def tmpdir():
    d = tempfile.mkdtemp(prefix="t_")
    _tmp.append(d)
    return d


def cleanup():
    while _tmp:
        shutil.rmtree(_tmp.pop(), ignore_errors=True)


class Rng(random.Random):
    def __init__(self, key):
        super().__init__(key)
        self.np = np.random.default_rng(self.getrandbits(32))

    def size(self, hi=12, empty=True):
        """small sizes, biased to 0, 1, 2"""
        r = self.random()
        if empty and r < 0.08:
            return 0
        if r < 0.2:
            return 1
        if r < 0.3:
            return 2
        return self.randint(3, max(3, hi))

    def maybe(self, p=0.5):
        return self.random() < p


def check(cond, msg="", *more, **k):
    if not cond:
        raise AssertionError(" ".join(str(x) for x in (msg,) + more) + (" " + ", ".join(f"{a}={b!r}" for a, b in k.items()) if k else ""))


def same(a, b, msg="", rtol=0, atol=0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise AssertionError(f"{msg}: shapes {a.shape} != {b.shape}; got {a!r}, expected {b!r}")
    if rtol or atol:
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    else:
        ok = np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc")
    if not ok:
        raise AssertionError(f"{msg}: got {a!r}, expected {b!r}")


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
