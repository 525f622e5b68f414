"""Concrete harness context: runs the same harness on the unmodified
repository code with the interpreter and numpy the project uses."""
from __future__ import print_function
import builtins
import importlib
import inspect
import math
import sys

import re

import numpy as np

NUMBER = r'(?:(?<![\w])-)?\d+\.?\d*(?:[eE][-+]?\d+)?'


class AssumeFailed(Exception):
    pass


class _Out(object):
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


def capture(names, f):
    out = _Out()

    def pr(*x, **k):
        sep, end = k.get('sep'), k.get('end')
        if k.get('file') in (None, out, sys.__stdout__):
            out.write((' ' if sep is None else sep).join(str(y) for y in x) + ('\n' if end is None else end))
    old, stdout = names['print'], sys.stdout
    names['print'], sys.stdout = pr, out
    try:
        r = f()
    finally:
        names['print'], sys.stdout = old, stdout
    return r, ''.join(out.text)


def stub(c, attr, f, mods):
    c.private(mods[0], attr)
    sig = inspect.signature(f)

    def g(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError:
            # called in another way than today: nothing to decide
            c.undecidable('%s has other arguments' % attr)
        return f(*a, **k)
    for name in mods:
        try:
            m = c.mod(name)
        except ImportError:
            continue
        if hasattr(m, attr):
            c.patch(m, attr, g)


class ConcCtx(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.np = np
        self.la = np.linalg
        self.math = math
        self.int_type = int
        self.failures = []
        self.nchecks = 0
        self.patches = []

    def mod(self, name):
        return importlib.import_module(name)

    def private(self, name, attr):
        m = importlib.import_module(name)
        if not hasattr(m, attr):
            raise AssumeFailed()
        return getattr(m, attr)

    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def undecidable(self, msg):
        raise AssumeFailed()

    def capture(self, f):
        return capture(builtins.__dict__, f)

    def stub(self, attr, f, *mods):
        stub(self, attr, f, mods)

    def restore(self):
        for obj, name, v in reversed(self.patches):
            setattr(obj, name, v)
        self.patches = []

    # --- inputs
    def real(self, name, lo=None, hi=None):
        v = self.inputs.get(name)
        if v is None:
            if lo is None:
                lo = (hi - 10) if hi is not None else -5.0
            if hi is None:
                hi = lo + 10.0
            v = (float(lo) + float(hi)) / 2
        v = float(v)
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        return np.float64(v)

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = (lo + hi) // 2
        return int(v)

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def choice(self, name, n):
        return self.int(name, 0, n - 1) if n > 1 else 0

    def mat(self, name, n, m, lo, hi):
        return np.array([[self.real('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def vec(self, name, n, lo, hi):
        return np.array([self.real('%s%d' % (name, i), lo, hi) for i in range(n)])

    def imat(self, name, n, m, lo, hi):
        return np.array([[self.int('%s%d%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def ivec(self, name, n, lo, hi):
        return np.array([self.int('%s%d' % (name, i), lo, hi) for i in range(n)])

    # --- logic
    @staticmethod
    def And(*xs):
        return all(bool(np.all(x)) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(np.all(x)) for x in xs)

    @staticmethod
    def Not(x):
        return not bool(x)

    @staticmethod
    def implies(a, b):
        return (not bool(a)) or bool(b)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise AssumeFailed()

    def check(self, cond, msg):
        self.nchecks += 1
        ok = bool(np.all(cond))
        if not ok:
            self.failures.append(msg)
        return ok

    def fail(self, msg):
        self.nchecks += 1
        self.failures.append(msg)

    def reached(self):
        self.nchecks += 1

    def close(self, A, B, tol=1e-6):
        try:
            a, b = np.array(A, dtype=float), np.array(B, dtype=float)
        except (TypeError, ValueError):
            return False
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

    def eq(self, A, B, msg, tol=1e-6):
        return self.check(self.close(A, B, tol), msg)

    def same(self, A, B, msg):
        a, b = np.array(A), np.array(B)
        return self.check(a.shape == b.shape and bool(np.all(a == b)), msg)

    def is_int(self, x, tol=1e-6):
        return bool(abs(float(x) - round(float(x))) <= tol)

    def all_int(self, A, tol=1e-6):
        return all(self.is_int(x, tol) for x in np.array(A).flat)

    def value(self, x):
        return int(x)

    def is_concrete(self, x):
        return True

    def raises(self, fn, *exc):
        exc = exc or (Exception,)
        try:
            fn()
        except exc:
            return True
        return False

    def register_spectrum(self, C, lams, V, perm=None):
        pass

    def int_mode(self, mode):
        pass

    def shape(self, A):
        return np.array(A).shape

    def fields(self, text):
        vals = []

        def one(m):
            vals.append((float(m.group(0)), 0))
            return '#'
        t = re.sub(NUMBER, one, str(text))
        return ' '.join(t.split()), vals

    def printed(self, x, y, tol):
        return self.close(x[0], y, 2 * tol)

    def note(self, msg):
        pass

    def finite(self, A):
        try:
            return bool(np.all(np.isfinite(np.array(A, dtype=float))))
        except (TypeError, ValueError):
            return False
