"""Exact polynomial / rational-function arithmetic with algebraic atoms.

Polynomials are dicts {monomial: coefficient}, monomials are tuples of
(variable id, exponent) sorted by id.  Variables are either inputs, fresh
symbols or algebraic atoms (sqrt, abs, sin/cos) whose squares are rewritten on
the fly, so that identities modulo those relations normalise to zero.
"""
from fractions import Fraction
import math

ONE = ()


class VarInfo(object):
    __slots__ = ('id', 'name', 'kind', 'isint', 'lo', 'hi', 'los', 'his', 'data', 'sq')

    def __init__(self, id, name, kind, isint=False, lo=None, hi=None, los=False, his=False,
                 data=None, sq=None):
        self.id = id
        self.name = name
        self.kind = kind      # in | fresh | sqrt | abs | cos | sin
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.los = los        # strict lower bound
        self.his = his
        self.data = data
        self.sq = sq          # polynomial dict replacing var**2


class Registry(object):
    def __init__(self):
        self.vars = []
        self.byname = {}
        self.reducible = set()

    def new(self, name, kind, **kw):
        if name in self.byname:
            return self.byname[name]
        v = VarInfo(len(self.vars), name, kind, **kw)
        self.vars.append(v)
        self.byname[name] = v
        if v.sq is not None:
            self.reducible.add(v.id)
        return v


REG = Registry()


def reset_registry():
    REG.vars = []
    REG.byname = {}
    REG.reducible = set()
    _mul_cache.clear()


_mul_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mul_cache) > 2000000:
        _mul_cache.clear()
    _mul_cache[key] = r
    return r


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b, f=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if f == 1 else _norm(c * f)
        else:
            v = v + (c if f == 1 else c * f)
            if v == 0:
                del r[m]
            else:
                r[m] = _norm(v)
    return r


def pscale(a, f):
    if f == 0:
        return {}
    if f == 1:
        return a
    return {m: _norm(c * f) for m, c in a.items()}


def _needs(m):
    red = REG.reducible
    for v, e in m:
        if e > 1 and v in red:
            return True
    return False


def preduce(p):
    """rewrite squares of algebraic atoms"""
    if not REG.reducible:
        return p
    bad = [m for m in p if _needs(m)]
    if not bad:
        return p
    r = dict(p)
    for m in bad:
        c = r.pop(m)
        rest = []
        fac = None
        for v, e in m:
            if e > 1 and v in REG.reducible:
                sq = REG.vars[v].sq
                f = ppow(sq, e // 2)
                fac = f if fac is None else pmul(fac, f)
                if e % 2:
                    rest.append((v, 1))
            else:
                rest.append((v, e))
        q = pmul({tuple(rest): c}, fac)
        r = padd(r, q)
    return preduce(r)


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return pscale(b, c)
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return pscale(a, c)
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: _norm(c) for m, c in r.items() if c != 0}
    return preduce(r)


def ppow(a, n):
    r = {ONE: 1}
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def pconst(p):
    """constant value of p, or None"""
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def _mkey(m):
    # graded order, ties broken lexicographically
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=_mkey)


def pfreeze(p):
    return tuple(sorted(p.items()))


def mono_div(a, b):
    """a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def _lexkey_factory(order):
    idx = {v: i for i, v in enumerate(order)}
    n = len(order)

    def key(m):
        k = [0] * n
        t = 0
        for v, e in m:
            k[idx[v]] = e
            t += e
        return (t, k)
    return key


def pdivexact(p, f, limit=4000):
    """exact quotient p/f (atoms are free variables), or None"""
    if not p:
        return {}
    fv = pvars(f)
    if not fv <= pvars(p):
        return None
    if len(f) == 1:
        (fm, fc), = f.items()
        out = {}
        for m, c in p.items():
            q = mono_div(m, fm)
            if q is None:
                return None
            out[q] = _norm(Fraction(c) / fc)
        return out
    # degree check
    for v in fv:
        if pdeg(p, v) < pdeg(f, v):
            return None
    order = sorted(pvars(p))
    key = _lexkey_factory(order)
    lf = max(f, key=key)
    # the lowest term must divide too
    lowp = min(p, key=key)
    lowf = min(f, key=key)
    if mono_div(lowp, lowf) is None:
        return None
    cf = f[lf]
    r = dict(p)
    q = {}
    n = 0
    while r:
        lm = max(r, key=key)
        d = mono_div(lm, lf)
        if d is None:
            return None
        c = _norm(Fraction(r[lm]) / cf)
        q[d] = c
        for m2, c2 in f.items():
            m = mono_mul(d, m2)
            v = r.get(m, 0) - c * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(v)
        n += 1
        if n > limit:
            return None
    return q


def pvars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def pdeg(p, v):
    d = 0
    for m in p:
        for w, e in m:
            if w == v and e > d:
                d = e
    return d


def pmonocontent(p):
    """common monomial factor"""
    it = iter(p)
    common = dict(next(it))
    for m in it:
        if not common:
            return ONE
        d = dict(m)
        for v in list(common):
            e = min(common[v], d.get(v, 0))
            if e == 0:
                del common[v]
            else:
                common[v] = e
    return tuple(sorted(common.items()))


def pmonic(p):
    """(coefficient, p / coefficient) with a canonical sign and scale"""
    c = p[lead(p)]
    if c == 1:
        return 1, p
    return c, {m: _norm(Fraction(x) / c) for m, x in p.items()}


def pcontent(p):
    g = 0
    l = 1
    for c in p.values():
        if isinstance(c, Fraction):
            g = math.gcd(g, abs(c.numerator))
            l = l * c.denominator // math.gcd(l, c.denominator)
        else:
            g = math.gcd(g, abs(c))
    return Fraction(g, l)


# ---------------------------------------------------------------- intervals
def imul(a, b):
    """product of intervals (lo, hi); None is infinite"""
    (al, ah), (bl, bh) = a, b
    if al is not None and bl is not None and al >= 0 and bl >= 0:
        lo = al * bl
        hi = None if ah is None or bh is None else ah * bh
        if (ah is not None and ah == 0) or (bh is not None and bh == 0):
            hi = 0
        return lo, hi
    if None in (al, ah, bl, bh):
        return None, None
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return min(ps), max(ps)


def ipow(a, e):
    lo, hi = a
    if e == 1:
        return a
    if e % 2 == 0:
        if lo is not None and lo >= 0:
            return lo ** e, None if hi is None else hi ** e
        if hi is not None and hi <= 0:
            return hi ** e, None if lo is None else lo ** e
        return 0, None if lo is None or hi is None else max(lo ** e, hi ** e)
    return None if lo is None else lo ** e, None if hi is None else hi ** e


def pinterval(p):
    """interval (lo, hi, strict_lo, strict_hi) over the variable bounds"""
    lo = hi = 0
    slo = shi = False
    vars = REG.vars
    for m, c in p.items():
        if not m:
            lo = None if lo is None else lo + c
            hi = None if hi is None else hi + c
            continue
        a = (1, 1)
        strict_l = strict_h = False
        simple = len(m) == 1 and m[0][1] == 1
        for v, e in m:
            w = vars[v]
            a = imul(a, ipow((w.lo, w.hi), e))
        if simple:
            w = vars[m[0][0]]
            strict_l, strict_h = w.los, w.his
        elif all(vars[v].lo is not None and vars[v].lo >= 0 for v, _ in m):
            strict_l = all(vars[v].los or (vars[v].lo > 0) for v, _ in m) and \
                any(vars[v].los for v, _ in m)
        if c < 0:
            a = (a[1], a[0])
            strict_l, strict_h = strict_h, strict_l
        if lo is not None:
            if a[0] is None:
                lo = None
            else:
                lo = lo + a[0] * c
                slo = slo or strict_l
        if hi is not None:
            if a[1] is None:
                hi = None
            else:
                hi = hi + a[1] * c
                shi = shi or strict_h
        if lo is None and hi is None:
            return None, None, False, False
    return lo, hi, slo, shi
