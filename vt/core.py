"""Monitoring harness: cases run the real /repo code, a Ctx records what the
oracles observed and raises Violation when an observed execution refutes the
property."""
import hashlib
import os
import shutil
import tempfile
import zlib

import numpy as np


class Violation(Exception):
    def __init__(self, label, msg):
        super().__init__('%s: %s' % (label, msg))
        self.label = label
        self.msg = msg


class NoProgress(BaseException):
    """the case used up its CPU budget (raised from a CPU-time signal)."""


REGISTRY = {}


def case(quick=50, mult=12):
    """Register a case generator. quick: executions per quick run;
    mult: how many times more in the thorough tier."""
    def deco(fn):
        mod = REGISTRY.setdefault(fn.__module__, [])
        mod.append((fn.__name__, fn, quick, mult))
        return fn
    return deco


def unit_seed(seed, pid, name, idx):
    return zlib.crc32(('%d/%s/%s/%d' % (seed, pid, name, idx)).encode()) & 0x7fffffff


def brief(x, n=300):
    try:
        if isinstance(x, np.ndarray):
            s = 'array%s %s %s' % (x.shape, x.dtype, np.array2string(
                x.ravel()[:8], precision=8))
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, seed, tier, known, scratch):
        self.seed = seed
        self.tier = tier
        self.known = known
        self.rng = np.random.RandomState(seed)
        self.events = 0
        self.counters = {}
        self.sigs = set()
        self.known_hits = {}
        self._sample = None
        self._scratch = scratch
        self._tmp = None

    # ---- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case', dir=self._scratch)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # ---- random choices
    def int(self, lo, hi):
        """integer in [lo, hi]"""
        return int(self.rng.randint(lo, hi + 1))

    def size(self, lo, hi, big, p=.015):
        """a number of things in [lo, hi], now and then up to big"""
        if self.rng.uniform() >= p:
            return self.int(lo, hi)
        return self.pick([n for n in (64, 100, 128, 256, 257, 512, 1000, 1024, 1025) if hi < n <= big] + [self.int(hi, big)] * 3)

    def flip(self, p=0.5):
        return bool(self.rng.uniform() < p)

    def pick(self, seq):
        return seq[self.rng.randint(len(seq))]

    def seedint(self):
        return int(self.rng.randint(1, 2 ** 31 - 1))

    # ---- observation
    def event(self, name, n=1):
        self.events += n
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if self._sample is None:
            self._sample = {k: (v if isinstance(v, (int, float, str, bool, list)) else brief(v))
                            for k, v in kw.items()}

    # ---- verdicts
    def fail(self, label, msg=''):
        if label in self.known:
            self.known_hits[label] = self.known_hits.get(label, 0) + 1
            return False
        raise Violation(label, msg if isinstance(msg, str) else brief(msg))

    def check(self, cond, label, *info):
        self.events += 1
        if not bool(cond):
            return self.fail(label, ' | '.join(i if isinstance(i, str) else brief(i) for i in info))
        return True

    def same(self, got, want, label, *info):
        """exact equality, value and shape"""
        self.events += 1
        ok = False
        try:
            if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
                g = np.asarray(got)
                w = np.asarray(want)
                if g.shape == w.shape:
                    if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
                        ok = bool(np.all((g == w) | ((g != g) & (w != w))))
                    else:
                        ok = bool(np.all(g == w))
            else:
                ok = bool(got == want)
        except Exception as e:
            return self.fail(label, 'not comparable: %s got=%s want=%s' % (e, brief(got), brief(want)))
        if not ok:
            return self.fail(label, 'got %s want %s %s' % (
                brief(got), brief(want), ' '.join(brief(i) for i in info)))
        return True

    def close(self, got, want, label, rtol=1e-7, atol=1e-9, info=None):
        self.events += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            return self.fail(label, 'shape got %s want %s %s' % (g.shape, w.shape, brief(info)))
        try:
            g = g.astype(complex if g.dtype.kind == 'c' or w.dtype.kind == 'c' else float)
            w = w.astype(g.dtype)
            with np.errstate(all='ignore'):
                d = np.abs(g - w)
                ok = (d <= atol + rtol * np.abs(w)) | (g == w) | ((g != g) & (w != w))
        except Exception as e:
            return self.fail(label, 'not numeric: %s' % e)
        if not np.all(ok):
            i = np.argmax(~ok.ravel()) if ok.ndim else 0
            return self.fail(label, 'at flat %d got %r want %r (of %s) %s' % (
                i, g.ravel()[i], w.ravel()[i], g.shape, brief(info)))
        return True

    def raises(self, fn, label, *info):
        """fn must signal an error instead of returning"""
        self.events += 1
        try:
            r = fn()
        except NoProgress:
            raise
        except Exception:
            return True
        return self.fail(label, 'no error; returned %s %s' % (brief(r), ' '.join(brief(i) for i in info)))

    def pure(self, fn, *args, **kw):
        """call fn and observe that the array arguments are left as they were"""
        snaps = [(i, a, np.array(a, copy=True)) for i, a in
                 list(enumerate(args)) + list(kw.items()) if isinstance(a, np.ndarray)]
        r = fn(*args, **kw)
        for i, a, s in snaps:
            self.events += 1
            same = a.shape == s.shape and a.dtype == s.dtype and (
                np.array_equal(a, s) or np.array_equal(a[a == a], s[s == s]) and np.array_equal(a != a, s != s))
            if not same:
                self.fail('input-modified:' + getattr(fn, '__qualname__', str(fn)),
                          'argument %r changed from %s to %s' % (i, brief(s), brief(a)))
        return r
