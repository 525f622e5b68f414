"""Symbolic scalars, symbolic booleans and the path engine (z3 back end)."""
import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import icp
from . import poly as P
from .poly import ONE, REG

TOL = Fraction(1, 10 ** 7)


class EngineSignal(BaseException):
    """raised to abandon the current path; never caught by the code under test"""


class PathInfeasible(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


# ------------------------------------------------------------------ factors
FACT = []
FACT_ID = {}
_SNAP = {}


def reset_all():
    P.reset_registry()
    del FACT[:]
    FACT_ID.clear()
    _SNAP.clear()
    _Z3CACHE.clear()
    _ANGLE_BASE.clear()


def factor_id(p):
    """id of the monic polynomial p"""
    k = P.pfreeze(p)
    i = FACT_ID.get(k)
    if i is None:
        i = len(FACT)
        FACT.append(p)
        FACT_ID[k] = i
    return i


def den_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def den_poly(d):
    r = {ONE: 1}
    for f, e in d:
        r = P.pmul(r, P.ppow(FACT[f], e))
    return r


def den_lcm(a, b):
    """(lcm, cofactor for a, cofactor for b)"""
    da, db = dict(a), dict(b)
    l = {}
    for f in set(da) | set(db):
        l[f] = max(da.get(f, 0), db.get(f, 0))
    ca = tuple((f, e - da.get(f, 0)) for f, e in l.items() if e > da.get(f, 0))
    cb = tuple((f, e - db.get(f, 0)) for f, e in l.items() if e > db.get(f, 0))
    return tuple(sorted(l.items())), ca, cb


def split_den(p):
    """1/p = num / den: returns (num poly, den)"""
    num = {ONE: 1}
    den = ()
    mc = P.pmonocontent(p)
    if mc:
        p = P.pdivexact(p, {mc: 1})
        for v, e in mc:
            w = REG.vars[v]
            if w.kind in ('sqrt', 'abs'):
                if e % 2:
                    num = P.pmul(num, {((v, 1),): 1})
                    e += 1
                n2, d2 = split_den(w.sq)
                for _ in range(e // 2):
                    num = P.pmul(num, n2)
                    den = den_mul(den, d2)
            else:
                den = den_mul(den, ((factor_id({((v, 1),): 1}), e),))
    c, p = P.pmonic(p)
    num = P.pscale(num, Fraction(1) / c)
    if P.pconst(p) is not None:
        return num, den
    if len(FACT) < 300 and len(p) > 1:
        for i in range(len(FACT)):
            f = FACT[i]
            if len(f) < 2 or len(f) >= len(p) + 40:
                continue
            if f == p:
                break
            while True:
                q = P.pdivexact(p, f)
                if q is None:
                    break
                den = den_mul(den, ((i, 1),))
                p = q
                if P.pconst(p) is not None:
                    break
            if P.pconst(p) is not None:
                break
    k = P.pconst(p)
    if k is not None:
        num = P.pscale(num, Fraction(1) / k)
    else:
        c, p = P.pmonic(p)
        num = P.pscale(num, Fraction(1) / c)
        den = den_mul(den, ((factor_id(p), 1),))
    return num, den


def simplify(n, d):
    if not n:
        return n, ()
    if not d:
        return n, d
    if len(n) > 1500:
        return n, d
    out = []
    for f, e in d:
        fp = FACT[f]
        while e > 0:
            q = P.pdivexact(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return n, tuple(out)


# ------------------------------------------------------------------ snapping
def snap(x):
    """exact reading of a float constant: (poly) simple rational, square root
    of a simple rational, or the float's exact value"""
    r = _SNAP.get(x)
    if r is not None:
        return r
    fx = Fraction(x)
    if fx.denominator == 1:
        r = {ONE: fx.numerator} if fx else {}
    else:
        s = fx.limit_denominator(10000)
        ax = abs(fx)
        if s != 0 and abs(s - fx) <= ax * Fraction(9, 10 ** 16):
            r = {ONE: P._norm(s)}
        else:
            x2 = fx * fx
            s2 = x2.limit_denominator(2000)
            if s2 != 0 and ax < 1000 and abs(s2 - x2) <= x2 * Fraction(16, 10 ** 16):
                r = sqrt_const(s2)
                if fx < 0:
                    r = P.pscale(r, -1)
            else:
                r = {ONE: fx}
    _SNAP[x] = r
    return r


def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n and p < 5000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def sqrt_const(q):
    """polynomial of sqrt(q) for a rational q >= 0, one atom per prime"""
    q = Fraction(q)
    if q == 0:
        return {}
    n = q.numerator * q.denominator
    r = {ONE: Fraction(1, q.denominator)}
    for p, e in _prime_factors(n).items():
        r = P.pscale(r, p ** (e // 2))
        if e % 2:
            s = math.isqrt(p)
            if s * s == p:
                r = P.pscale(r, s)
                continue
            lo = Fraction(math.isqrt(p * 10 ** 24), 10 ** 12)
            v = REG.new('sqrt(%d)' % p, 'sqrt', lo=lo, hi=lo + Fraction(1, 10 ** 12),
                        data={ONE: p}, sq={ONE: p})
            r = P.pmul(r, {((v.id, 1),): 1})
    return r


# ------------------------------------------------------------------ scalars
NUM = (int, float, Fraction, np.integer, np.floating, bool, np.bool_)


def isnum(x):
    return isinstance(x, NUM)


def wrap(n, d, isint):
    """build a value; fold exactly representable constants"""
    if not d:
        c = P.pconst(n)
        if c is not None:
            if isint and not (isinstance(c, Fraction) and c.denominator != 1):
                c = int(c)
                return np.int64(c) if -2 ** 63 <= c < 2 ** 63 else c
            try:
                f = float(c)
            except OverflowError:
                f = None
            if f is not None and Fraction(f) == c:
                return np.float64(f)
    return Sym(n, d, isint)


def lift(x):
    """Sym (unfolded) from a number, None if x is not a finite number"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return lift(1 if bool(x) else 0)
    if isinstance(x, (bool, np.bool_)):
        return Sym({ONE: 1} if x else {}, (), True)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return Sym({ONE: x} if x else {}, (), True)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        return Sym(snap(x), (), False)
    if isinstance(x, Fraction):
        return Sym({ONE: P._norm(x)} if x else {}, (), False)
    return None


class Sym(object):
    # nn: built as a sum of products of squares, so never negative
    __slots__ = ('n', 'd', 'isint', 'v', 'nn')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n, d=(), isint=False):
        self.n = n
        self.d = d
        self.isint = isint
        self.v = 0
        self.nn = False

    # --- arithmetic
    def _add(self, o, f):
        if ENG.subst:
            norm(self)
            norm(o)
        isint = self.isint and o.isint
        if self.d == o.d:
            n, d = simplify(P.padd(self.n, o.n, f), self.d)
        else:
            l, ca, cb = den_lcm(self.d, o.d)
            n = P.pmul(self.n, den_poly(ca)) if ca else self.n
            m = P.pmul(o.n, den_poly(cb)) if cb else o.n
            n, d = simplify(P.padd(n, m, f), l)
        r = wrap(n, d, isint)
        if f == 1 and _nn(self) and _nn(o) and isinstance(r, Sym):
            r.nn = True
        return r

    def __add__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'add')
        return self._add(b, 1)

    __radd__ = __add__

    def __sub__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'sub')
        return self._add(b, -1)

    def __rsub__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'rsub')
        return b._add(self, -1)

    def __mul__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'mul')
        if ENG.subst:
            norm(self)
            norm(b)
        isint = self.isint and b.isint
        n1, d2 = simplify(self.n, b.d)
        n2, d1 = simplify(b.n, self.d)
        n = P.pmul(n1, n2)
        d = den_mul(d1, d2)
        if d and P.REG.reducible:
            n, d = simplify(n, d)
        if not n:
            d = ()
        if o is self and len(n) > 1:
            r = wrap(n, d, isint)
            if isinstance(r, Sym):
                ENG.square_fact(self, r)
                r.nn = True
            return r
        r = wrap(n, d, isint)
        if isinstance(r, Sym) and (o is self or (_nn(self) and _nn(b)) or (self.n == b.n and self.d == b.d)):
            r.nn = True
        return r

    __rmul__ = __mul__

    def inverse(self):
        """1/self for a self known to be non-zero"""
        num, den = split_den(self.n)
        n = P.pmul(num, den_poly(self.d)) if self.d else num
        n, den = simplify(n, den)
        return Sym(n, den, False)

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'div')
        return div(self, b)

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            return self._special(o, 'rdiv')
        return div(b, self)

    def _special(self, o, op):
        """arithmetic with nan / inf / arrays"""
        if isinstance(o, (float, np.floating)):
            o = float(o)
            if math.isnan(o):
                return np.float64('nan')
            if op in ('add', 'rsub'):
                return np.float64(o)
            if op == 'sub':
                return np.float64(-o)
            if op == 'div':
                return np.float64(0.0)
            if op == 'mul':
                s = ENG.sign(self)
                return np.float64('nan') if s == 0 else np.float64(o * s)
            if op == 'rdiv':
                s = ENG.sign(self)
                return np.float64(o) if s >= 0 else np.float64(-o)
        return NotImplemented

    def __neg__(self):
        return wrap(P.pscale(self.n, -1), self.d, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_abs(self)

    def __pow__(self, e):
        if isinstance(e, Sym):
            e = ENG.concretize(e)
        if isinstance(e, (float, np.floating)) and float(e).is_integer():
            r = self.__pow__(int(e))
            return as_float(r)
        if isinstance(e, (int, np.integer)):
            e = int(e)
            if e == 0:
                return np.int64(1) if self.isint else np.float64(1.0)
            if e < 0:
                return div(lift(1), lift(self.__pow__(-e)))
            r = wrap(P.ppow(self.n, e), tuple((f, k * e) for f, k in self.d), self.isint)
            if e % 2 == 0 and isinstance(r, Sym):
                if len(r.n) > 1:
                    ENG.square_fact(self, r)
                r.nn = True
            return r
        if float(e) == 0.5:
            return sym_sqrt(self)
        if float(e) == -0.5:
            return div(lift(1), lift(sym_sqrt(self)))
        if float(e) == 1.5:
            return self * sym_sqrt(self)
        if float(e) == 0.25:
            r = sym_sqrt(self)
            return sym_sqrt(r)
        return np.float64(float(ENG.pin(self)) ** float(e))

    def __rpow__(self, b):
        e = ENG.concretize(self)
        return b ** e

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        r = sym_floor(div(self, b), isint=self.isint and b.isint)
        return r

    def __rfloordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return sym_floor(div(b, self), isint=self.isint and b.isint)

    def __mod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    # --- comparisons
    def _cmp(self, o, op):
        b = lift(o)
        if b is None:
            if isinstance(o, (float, np.floating)):
                v = 0.0
                return {'>': v > o, '>=': v >= o, '<': v < o, '<=': v <= o,
                        '==': False, '!=': True}[op]
            if isinstance(o, str) or o is None or not hasattr(o, '__array_priority__'):
                if op == '==':
                    return False
                if op == '!=':
                    return True
            return NotImplemented
        return compare(self, b, op)

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    # --- conversions
    def __bool__(self):
        return bool(compare(self, lift(0), '!='))

    def __index__(self):
        if not self.isint:
            raise TypeError('a float cannot be interpreted as an integer')
        return int(ENG.concretize(self))

    def __int__(self):
        return int(ENG.concretize(sym_trunc(self)))

    def __float__(self):
        return float(ENG.pin(self))

    def __complex__(self):
        return complex(float(self))

    def __hash__(self):
        if self.isint:
            return hash(int(ENG.concretize(self)))
        return hash(float(ENG.pin(self)))

    def __floor__(self):
        return sym_floor(self, True)

    def __ceil__(self):
        return -lift(sym_floor(-self, True))

    def __trunc__(self):
        return sym_trunc(self)

    def __round__(self, nd=None):
        if nd is None:
            return sym_rint(self, True)
        return sym_round(self, nd)

    def __repr__(self):
        return 'Sym(%s)' % show(self)

    def __str__(self):
        return print_token(self)

    def __format__(self, spec):
        return print_token(self, spec)

    # numpy scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def dtype(self):
        from . import symnp
        return symnp.SDtype('i' if self.isint else 'f')

    @property
    def T(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import symnp
        return symnp.cast_scalar(self, symnp.dkind(dt))

    def is_integer(self):
        return bool(self == sym_rint(self, True))

    def sum(self, *a, **k):
        return self

    def round(self, nd=0):
        return sym_round(self, nd)

    def sqrt(self):
        return sym_sqrt(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def flatten(self):
        from . import symnp
        return symnp.array([self])

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise ENG.unsupported('scalar attribute %s' % k)


def show(s, maxlen=400):
    def pp(p):
        out = []
        for m, c in p.items():
            out.append('*'.join([str(c)] + ['%s^%d' % (REG.vars[v].name, e) if e > 1 else REG.vars[v].name
                                            for v, e in m]))
        return ' + '.join(out) or '0'
    r = pp(s.n)
    if s.d:
        r = '(%s)/(%s)' % (r, ' * '.join('(%s)^%d' % (pp(FACT[f]), e) for f, e in s.d))
    return r if len(r) < maxlen else r[:maxlen] + '...'


def _nn(x):
    if x.nn:
        return True
    c = P.pconst(x.n) if not x.d else None
    return c is not None and c >= 0


def as_float(x):
    if isinstance(x, Sym):
        if not x.isint:
            return x
        r = Sym(x.n, x.d, False)
        r.nn = x.nn
        return r
    return np.float64(x)


def div(a, b):
    """numpy-style a/b on Syms"""
    if ENG.subst:
        norm(a)
        norm(b)
    c = P.pconst(b.n) if not b.d else None
    if c is not None:
        if c == 0:
            return _zero_div(a)
        r = wrap(P.pscale(a.n, Fraction(1) / c), a.d, False)
        if c > 0 and a.nn and isinstance(r, Sym):
            r.nn = True
        return r
    if bool(compare(b, lift(0), '==')):
        return _zero_div(a)
    r = a * b.inverse()
    return as_float(r)


def _zero_div(a):
    ENG.note('division by zero')
    s = ENG.sign(a)
    return np.float64('nan') if s == 0 else np.float64(s * float('inf'))


def psubst(p, sub):
    """replace the variables in sub (variable id -> polynomial)"""
    out = {}
    rest = {}
    for m, c in p.items():
        if not any(v in sub for v, _ in m):
            rest[m] = c
            continue
        t = {tuple((v, e) for v, e in m if v not in sub): c}
        for v, e in m:
            if v in sub:
                t = P.pmul(t, P.ppow(sub[v], e))
        out = P.padd(out, t)
    return P.padd(rest, out)


def norm(x):
    """apply the equalities known on the path to x, in place"""
    if x.v == ENG.substv:
        return x
    sub = ENG.subst
    vs = P.pvars(x.n)
    if not vs.isdisjoint(sub):
        x.n = psubst(x.n, sub)
    if x.d and any(not P.pvars(FACT[f]).isdisjoint(sub) for f, _ in x.d):
        n, d = x.n, ()
        for f, e in x.d:
            q = FACT[f]
            if not P.pvars(q).isdisjoint(sub):
                q = psubst(q, sub)
                if not q:
                    x.v = ENG.substv
                    return x
                num, den = split_den(q)
                for _ in range(e):
                    n = P.pmul(n, num)
                    d = den_mul(d, den)
            else:
                d = den_mul(d, ((f, e),))
        x.n, x.d = simplify(n, d)
    elif x.d:
        x.n, x.d = simplify(x.n, x.d)
    x.v = ENG.substv
    return x


def provably_int(x):
    if x.isint:
        return True
    return not x.d and all(not isinstance(c, Fraction) for c in x.n.values()) and \
        all(REG.vars[v].isint for v in P.pvars(x.n))


def sym_abs(x):
    if not isinstance(x, Sym):
        return abs(x)
    s = ENG.known_sign(x)
    if s is not None:
        if s >= 0 and s != 2:
            return x
        if s in (-1, -2):
            return -x
    n = abs_poly(x.n)
    r = Sym(n, (), x.isint)
    if x.d:
        for f, e in x.d:
            fp = FACT[f]
            if e % 2 == 0:
                r = lift(r) * Sym({ONE: 1}, ((f, e),), False)
            else:
                ks = ENG.known_sign(Sym(fp))
                one = Sym({ONE: 1}, ((f, e),), False)
                if ks in (1,):
                    r = lift(r) * one
                elif ks in (-1,):
                    r = -(lift(r) * one)
                else:
                    r = lift(r) * one
                    sg = ENG.sign(Sym(fp))
                    if sg < 0:
                        r = -r
    return r


def abs_poly(n):
    c, m = P.pmonic(n)
    sq = P.pmul(m, m)
    name = 'abs(%s)' % (P.pfreeze(m),)
    isint = provably_int(Sym(m))
    v = REG.new(name, 'abs', isint=isint, lo=0, data=m, sq=sq)
    return {((v.id, 1),): abs(c)}


def sym_sqrt(x, nonneg=False):
    """square root; nonneg: the radicand is a sum of squares"""
    if not isinstance(x, Sym):
        x0 = x
        x = lift(x)
        if x is None:
            return np.sqrt(x0)
    if not x.n:
        return np.float64(0.0)
    c = P.pconst(x.n) if not x.d else None
    if c is not None:
        if c < 0:
            ENG.note('sqrt of negative')
            return np.float64('nan')
        return wrap(sqrt_const(c), (), False)
    neg = False if nonneg or x.nn else compare(x, lift(0), '<')
    if neg is not False and bool(neg):
        ENG.note('sqrt of negative')
        return np.float64('nan')
    # sqrt(n / prod f^e) = sqrt(n * prod_{e odd} f) / prod |f|^ceil(e/2)
    n = x.n
    res = Sym({ONE: 1}, (), False)
    for f, e in x.d:
        k = (e + 1) // 2
        if e % 2:
            n = P.pmul(n, FACT[f])
        inv = Sym({ONE: 1}, ((f, k),), False)
        if k % 2 == 0:
            res = lift(res * inv)
        else:
            s = ENG.known_sign(Sym(FACT[f]))
            if s is None or s in (2,):
                s = ENG.sign(Sym(FACT[f]))
            res = lift(res * inv) if s >= 0 else lift(-(res * inv))
    return as_float(lift(res) * Sym(sqrt_poly(n), (), False))


def _poly_sqrt(p):
    """exact polynomial square root or None (atoms as free variables)"""
    if len(p) > 80:
        return None
    order = sorted(P.pvars(p))
    key = P._lexkey_factory(order)
    lm = max(p, key=key)
    if any(e % 2 for _, e in lm):
        return None
    lc = Fraction(p[lm])
    if lc < 0:
        return None
    rn, rd = math.isqrt(lc.numerator), math.isqrt(lc.denominator)
    if rn * rn != lc.numerator or rd * rd != lc.denominator:
        return None
    q = {tuple((v, e // 2) for v, e in lm): P._norm(Fraction(rn, rd))}
    lq = next(iter(q))
    lqc = q[lq]

    def mulfree(a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = P.mono_mul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return {m: P._norm(c) for m, c in r.items() if c != 0}
    r = P.padd(p, mulfree(q, q), -1)
    for _ in range(200):
        if not r:
            return q
        m = max(r, key=key)
        d = P.mono_div(m, lq)
        if d is None:
            return None
        t = {d: P._norm(Fraction(r[m]) / (2 * lqc))}
        if key(d) >= key(lq):
            return None
        r = P.padd(r, P.padd(P.pscale(mulfree(q, t), 2), mulfree(t, t)), -1)
        q = P.padd(q, t)
        if len(q) > 60:
            return None
    return None


def sqrt_poly(n):
    """polynomial of sqrt(n), n >= 0 on this path"""
    # content
    cont = P.pcontent(n)
    n = P.pscale(n, 1 / cont)
    out = sqrt_const(cont)
    # monomial content: even powers out, odd powers of positive variables split
    mc = P.pmonocontent(n)
    rest = n
    if mc:
        for v, e in mc:
            w = REG.vars[v]
            var = {((v, 1),): 1}
            if e >= 2:
                k = e // 2
                rest = P.pdivexact(rest, {((v, 2 * k),): 1})
                if k % 2 == 0 or ENG.known_sign(Sym(var)) in (0, 1):
                    out = P.pmul(out, P.ppow(var, k))
                else:
                    out = P.pmul(out, P.ppow(abs_poly(var), k))
            if e % 2 and ENG.known_sign(Sym(var)) in (0, 1) and len(rest) >= 1 and rest != var:
                rest = P.pdivexact(rest, var)
                out = P.pmul(out, _sqrt_atom(var))
    c = P.pconst(rest)
    if c is not None:
        return P.pmul(out, sqrt_const(c))
    q = _poly_sqrt(rest)
    if q is not None:
        s = ENG.known_sign(Sym(q))
        if s is not None and s in (0, 1):
            return P.pmul(out, q)
        if s is not None and s in (-1, -2):
            return P.pmul(out, P.pscale(q, -1))
        return P.pmul(out, abs_poly(q))
    # square-free factorisation through sympy for small radicands
    fs = sympy_factors(rest)
    if fs is not None:
        cc, facs = fs
        core = {ONE: 1}
        if cc < 0:
            core = {ONE: -1}
            cc = -cc
        out = P.pmul(out, sqrt_const(cc))
        for f, e in facs:
            k = e // 2
            sg = ENG.known_sign(Sym(f))
            if k:
                if k % 2 == 0 or sg in (0, 1):
                    out = P.pmul(out, P.ppow(f, k))
                else:
                    out = P.pmul(out, P.ppow(abs_poly(f), k))
            if e % 2:
                if sg in (0, 1):
                    out = P.pmul(out, _sqrt_atom(f))
                elif sg in (-1, -2):
                    core = P.pscale(core, -1)
                    out = P.pmul(out, _sqrt_atom(P.pscale(f, -1)))
                else:
                    core = P.pmul(core, f)
        c = P.pconst(core)
        if c is not None:
            return P.pmul(out, sqrt_const(c)) if c >= 0 else P.pmul(out, {})
        return P.pmul(out, _sqrt_atom(core))
    return P.pmul(out, _sqrt_atom(rest))


_FACTOR_CACHE = {}


def sympy_factors(p):
    if len(p) > 40 or len(P.pvars(p)) > 6:
        return None
    if any(sum(e for _, e in m) > 10 for m in p):
        return None
    key = P.pfreeze(p)
    if key in _FACTOR_CACHE:
        return _FACTOR_CACHE[key]
    import sympy
    vs = sorted(P.pvars(p))
    xs = sympy.symbols(['x%d' % v for v in vs])
    R = sympy.QQ[tuple(xs)] if len(xs) > 0 else None
    idx = {v: i for i, v in enumerate(vs)}
    d = {}
    for m, c in p.items():
        k = [0] * len(vs)
        for v, e in m:
            k[idx[v]] = e
        d[tuple(k)] = sympy.Rational(Fraction(c).numerator, Fraction(c).denominator)
    pl = sympy.Poly.from_dict(d, *xs)
    c, fl = sympy.factor_list(pl)
    out = []
    for f, e in fl:
        q = {}
        for k, cc in sympy.Poly(f, *xs).terms():
            m = tuple((vs[i], int(ee)) for i, ee in enumerate(k) if ee)
            q[m] = P._norm(Fraction(int(cc.p), int(cc.q)))
        out.append((q, int(e)))
    r = (Fraction(int(sympy.Rational(c).p), int(sympy.Rational(c).q)), out)
    _FACTOR_CACHE[key] = r
    return r


def _sqrt_atom(rad):
    """sqrt of a primitive polynomial as an atom"""
    cont = P.pcontent(rad)
    out = sqrt_const(cont)
    rad = P.pscale(rad, 1 / cont)
    name = 'sqrt(%s)' % (P.pfreeze(rad),)
    lo, hi, sl, _ = P.pinterval(rad)
    blo = 0
    strict = False
    bhi = None
    if lo is not None and lo > 0:
        blo = Fraction(math.isqrt(int(lo * 10 ** 12)), 10 ** 6)
        if blo == 0:
            strict = True
    if hi is not None and hi >= 0:
        bhi = Fraction(math.isqrt(int(hi * 10 ** 12)) + 1, 10 ** 6)
    v = REG.new(name, 'sqrt', lo=blo, hi=bhi, los=strict, data=rad, sq=rad)
    return P.pmul(out, {((v.id, 1),): 1})


# --- rounding -------------------------------------------------------------
def sym_floor(x, isint=False):
    """floor as an integer-valued value (isint: python int kind)"""
    if not isinstance(x, Sym):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return x
        v = math.floor(x)
        return np.int64(v) if isint else np.float64(v)
    if ENG.subst:
        norm(x)
    if not x.d and P.pconst(x.n) is not None:
        v = math.floor(P.pconst(x.n))
        return np.int64(v) if isint else np.float64(v)
    if provably_int(x):
        return Sym(x.n, x.d, isint)
    if ENG.int_mode == 'fork':
        k = ENG.fork_int(x, 'floor')
        return np.int64(k) if isint else np.float64(k)
    v = ENG.fresh_int('floor', x)
    s = Sym({((v.id, 1),): 1}, (), isint)
    ENG.assert_(compare(x, s, '>='))
    ENG.assert_(compare(x, s + 1, '<'))
    return s


def sym_trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if provably_int(x):
        return Sym(x.n, x.d, True)
    if bool(x >= 0):
        return sym_floor(x, True)
    return -lift(sym_floor(-x, True))


def sym_rint(x, isint=False):
    if not isinstance(x, Sym):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return x
        if isinstance(x, (int, np.integer, bool)):
            return np.int64(x) if isint else np.float64(x)
        v = round(float(x))
        return np.int64(v) if isint else np.float64(v)
    if ENG.subst:
        norm(x)
    if not x.d and P.pconst(x.n) is not None:
        v = round(Fraction(P.pconst(x.n)))
        return np.int64(v) if isint else np.float64(v)
    if provably_int(x):
        return Sym(x.n, x.d, isint)
    if ENG.int_mode == 'fork':
        k = ENG.fork_int(x, 'rint')
        return np.int64(k) if isint else np.float64(k)
    v = ENG.fresh_int('rint', x)
    s = Sym({((v.id, 1),): 1}, (), isint)
    d = lift(x - s)
    ENG.assert_(compare(d, lift(Fraction(-1, 2)), '>='))
    ENG.assert_(compare(d, lift(Fraction(1, 2)), '<='))
    return s


def sym_round(x, nd=0):
    """round to nd decimals; at six or more decimals the rounding is below the
    tolerance of every property and read as the identity"""
    if not isinstance(x, Sym):
        return np.round(x, nd)
    nd = int(nd)
    if nd >= 6:
        return x
    if nd == 0:
        return sym_rint(x)
    s = 10 ** nd
    return div(lift(sym_rint(as_float(x * s))), lift(s))


TOKENS = []


def print_token(x, spec=''):
    """text that stands for a printed symbolic number; with the (relative or absolute) rounding to the printed digits"""
    import re
    m = re.match(r'^(?:.?[<>=^])?[-+ ]?#?0?\d*,?(?:\.(\d+))?([a-zA-Z%]?)$', spec)
    if m is None:
        raise ENG.unsupported('format ' + spec)
    kind = m.group(2)
    if kind == 'd' and not x.isint or kind == 's':
        raise ValueError("Unknown format code '%s' for object of type '%s'" % (kind, 'int' if x.isint else 'float'))
    nd = int(m.group(1)) if m.group(1) else 6
    v, tail, h = x, '', 0
    if kind == '%':
        v, tail, kind = v * 100, '%', 'f'
    if kind in ('f', 'F'):
        h = Fraction(1, 2 * 10 ** nd)
    elif kind in ('g', 'G', 'e', 'E') and not x.isint:
        h = Fraction(1, 2 * 10 ** max(nd - (0 if kind in 'eE' else 1), 0))
    TOKENS.append((v, h))
    return '\u27e6%d\u27e7' % (len(TOKENS) - 1) + tail


# --- trigonometry ---------------------------------------------------------
_ANGLE_BASE = {}
_PI = Fraction(math.pi)


def _exact_trig(deg):
    """(cos, sin) polys for a constant angle in degrees, or None"""
    deg = deg % 360
    tab = {0: ({ONE: 1}, {}), 30: None, 45: None, 60: None}
    q = int(deg // 90)
    r = deg - 90 * q
    if r == 0:
        c, s = {ONE: 1}, {}
    elif r == 30:
        c, s = P.pscale(sqrt_const(3), Fraction(1, 2)), {ONE: Fraction(1, 2)}
    elif r == 60:
        c, s = {ONE: Fraction(1, 2)}, P.pscale(sqrt_const(3), Fraction(1, 2))
    elif r == 45:
        c = s = P.pscale(sqrt_const(2), Fraction(1, 2))
    else:
        return None
    for _ in range(q):
        c, s = P.pscale(s, -1), c
    return c, s


def _trig_atoms(key, coef, xlo, xhi, name, evalf):
    """base atoms cos/sin of an angle in degrees with range [xlo, xhi]"""
    clo, chi, slo, shi = -1, 1, -1, 1
    cls = chs = sls = shs = False
    if xlo is not None and xhi is not None:
        lo, hi = xlo, xhi

        def rng(f, crit_max, crit_min):
            a, b = f(math.radians(float(lo))), f(math.radians(float(hi)))
            m, M = min(a, b), max(a, b)
            k = math.ceil((float(lo) - crit_max) / 360.0)
            if crit_max + 360 * k <= float(hi):
                M = 1.0
            k = math.ceil((float(lo) - crit_min) / 360.0)
            if crit_min + 360 * k <= float(hi):
                m = -1.0
            m = Fraction(m) - Fraction(1, 10 ** 12)
            M = Fraction(M) + Fraction(1, 10 ** 12)
            return max(m, Fraction(-1)), min(M, Fraction(1))
        clo, chi = rng(math.cos, 0, 180)
        slo, shi = rng(math.sin, 90, 270)
        # exact non-negativity when the range allows it
        if lo >= 0 and hi <= 180:
            slo = max(slo, 0)
        if lo >= -90 and hi <= 90:
            clo = max(clo, 0)
    c = REG.new('cos[%s]' % name, 'cos', lo=clo, hi=chi, data=(key, evalf))
    sq = {ONE: 1, ((c.id, 2),): -1}
    s = REG.new('sin[%s]' % name, 'sin', lo=slo, hi=shi, data=(key, evalf), sq=sq)
    return {((c.id, 1),): 1}, {((s.id, 1),): 1}


def trig(x):
    """(cos x, sin x) of an angle in radians"""
    if not isinstance(x, Sym):
        f = float(x)
        deg = (Fraction(f) * 180 / _PI).limit_denominator(1000)
        if abs(float(deg) * math.pi / 180 - f) <= 1e-15 * max(1.0, abs(f)):
            e = _exact_trig(deg)
            if e is not None:
                return wrap(e[0], (), False), wrap(e[1], (), False)
        return np.float64(math.cos(f)), np.float64(math.sin(f))
    if x.d:
        y = ENG.pin(x)
        return trig(y)
    c, s = {ONE: 1}, {}
    for m, k in sorted(x.n.items()):
        if not m:
            cc, ss = trig(float(k))
            cc, ss = lift(cc), lift(ss)
            if cc.d or ss.d:
                raise ENG.unsupported('angle')
            ct, st = cc.n, ss.n
        else:
            deg = (Fraction(k) * 180 / _PI).limit_denominator(100000)
            if abs(float(deg) * math.pi / 180 - float(k)) > 1e-13 * abs(float(k)):
                deg = Fraction(k) * 180 / _PI
            ct, st = _trig_mono(m, deg)
        c, s = P.padd(P.pmul(c, ct), P.pmul(s, st), -1), P.padd(P.pmul(s, ct), P.pmul(c, st))
    return wrap(c, (), False), wrap(s, (), False)


def _trig_mono(m, deg):
    """cos, sin of (deg degrees) * monomial m"""
    sgn = 1
    if deg < 0:
        sgn, deg = -1, -deg
    base = _ANGLE_BASE.get(m)
    if base is None or (deg / base).denominator != 1 or deg / base > 8:
        if base is not None and (deg / base).denominator <= 4:
            ENG.note('two angle units for one variable')
        base_here = deg
        if base is None:
            _ANGLE_BASE[m] = deg
    else:
        base_here = base
    mult = deg / base_here
    lo, hi, _, _ = P.pinterval({m: base_here})
    name = '%s*%s' % (base_here, '.'.join('%s^%d' % (REG.vars[v].name, e) for v, e in m))
    c, s = _trig_atoms((m, base_here), base_here, lo, hi, name, None)
    cc, ss = c, s
    for _ in range(int(mult) - 1):
        cc, ss = P.padd(P.pmul(cc, c), P.pmul(ss, s), -1), P.padd(P.pmul(ss, c), P.pmul(cc, s))
    if sgn < 0:
        ss = P.pscale(ss, -1)
    return cc, ss


# ------------------------------------------------------------------ booleans
def _has_eq(b):
    if not isinstance(b, SymBool):
        return False
    if b.op in ('and', 'or'):
        return any(_has_eq(a) for a in b.args)
    return b.op == '=='


class SymBool(object):
    __slots__ = ('op', 'args', '_k')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op = op        # '>','>=','==','!=' with args=(poly,), 'and','or' with children
        self.args = args
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ('and', 'or'):
                self._k = (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a for a in self.args)
            else:
                self._k = (self.op, P.pfreeze(self.args[0]))
        return self._k

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            if not isinstance(o, SymBool):
                return self if o else Not(self)
            return Or(And(self, o), And(Not(self), Not(o)))
        if isnum(o):
            return (1 if bool(self) else 0) == o
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return (1 if bool(self) else 0) + o

    __radd__ = __add__

    def __mul__(self, o):
        return (1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return (1 if bool(self) else 0) - o

    def __rsub__(self, o):
        return o - (1 if bool(self) else 0)

    def __neg__(self):
        return -(1 if bool(self) else 0)

    def __xor__(self, o):
        return Not(self == bool(o)) if not isinstance(o, SymBool) else Not(self.__eq__(o))

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % (self.op,)

    @property
    def dtype(self):
        from . import symnp
        return symnp.SDtype('b')

    ndim = 0
    shape = ()


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'and':
                out.extend(x.args)
            else:
                out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('and', tuple(out))


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            if x.op == 'or':
                out.extend(x.args)
            else:
                out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('or', tuple(out))


def Not(x):
    if not isinstance(x, SymBool):
        return not x
    if x.op == 'and':
        return Or(*[Not(a) for a in x.args])
    if x.op == 'or':
        return And(*[Not(a) for a in x.args])
    p = x.args[0]
    if x.op == '>':
        return SymBool('>=', (P.pscale(p, -1),))
    if x.op == '>=':
        return SymBool('>', (P.pscale(p, -1),))
    if x.op == '==':
        return SymBool('!=', (p,))
    return SymBool('==', (p,))


def atom(p, op):
    """comparison p op 0"""
    if op == '<':
        return atom(P.pscale(p, -1), '>')
    if op == '<=':
        return atom(P.pscale(p, -1), '>=')
    c = P.pconst(p)
    if c is not None:
        return {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    # integer tightening: p > 0 with integral p is p - 1 >= 0
    cont = P.pcontent(p)
    if op in ('==', '!='):
        c0 = p[P.lead(p)]
        if c0 < 0:
            cont = -cont
    p = P.pscale(p, 1 / cont)
    if op == '>' and all(not isinstance(c, Fraction) for c in p.values()) and \
            all(REG.vars[v].isint for v in P.pvars(p)):
        p = P.padd(p, {ONE: -1})
        op = '>='
    return SymBool(op, (p,))


def compare(a, b, op):
    d = a._add(b, -1)
    if not isinstance(d, Sym):
        if isinstance(d, float) and math.isnan(d):
            return op == '!='
        return {'>': d > 0, '>=': d >= 0, '<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0}[op] and True or False
    n = d.n
    if op not in ('==', '!='):
        for f, e in d.d:
            if e % 2:
                s = ENG.known_sign(Sym(FACT[f]))
                if s in (1, 0):
                    pass
                elif s in (-1, -2):
                    n = P.pscale(n, -1)
                else:
                    n = P.pmul(n, FACT[f])
    return atom(n, op)


# ------------------------------------------------------------------ z3 bridge
_Z3CACHE = {}


def z3var(i):
    k = ('v', i)
    r = _Z3CACHE.get(k)
    if r is None:
        w = REG.vars[i]
        nm = 'v%d_%s' % (i, w.name if len(w.name) < 30 else w.kind)
        r = z3.Int(nm) if w.isint else z3.Real(nm)
        _Z3CACHE[k] = r
    return r


def z3poly(p):
    """(expr, is_int) for p with integer coefficients when all variables are ints"""
    k = ('p', P.pfreeze(p))
    r = _Z3CACHE.get(k)
    if r is not None:
        return r
    vs = P.pvars(p)
    allint = all(REG.vars[v].isint for v in vs) and all(not isinstance(c, Fraction) for c in p.values())
    terms = []
    for m, c in sorted(p.items()):
        t = None
        for v, e in m:
            x = z3var(v)
            if not allint and REG.vars[v].isint:
                x = z3.ToReal(x)
            for _ in range(e):
                t = x if t is None else t * x
        if allint:
            cv = z3.IntVal(c)
        else:
            f = Fraction(c)
            cv = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        terms.append(cv if t is None else (t if c == 1 else cv * t))
    e = z3.Sum(terms) if len(terms) > 1 else terms[0]
    r = (e, allint)
    _Z3CACHE[k] = r
    return r


def z3bool(b):
    if not isinstance(b, SymBool):
        return z3.BoolVal(bool(b))
    k = ('b', b.key())
    r = _Z3CACHE.get(k)
    if r is not None:
        return r
    if b.op == 'and':
        r = z3.And(*[z3bool(a) for a in b.args])
    elif b.op == 'or':
        r = z3.Or(*[z3bool(a) for a in b.args])
    else:
        e, _ = z3poly(b.args[0])
        r = {'>': e > 0, '>=': e >= 0, '==': e == 0, '!=': e != 0}[b.op]
    _Z3CACHE[k] = r
    return r


def bool_vars(b, acc):
    if isinstance(b, SymBool):
        if b.op in ('and', 'or'):
            for a in b.args:
                bool_vars(a, acc)
        else:
            acc |= P.pvars(b.args[0])
    return acc


def var_axioms(i):
    """list of (z3 constraint) and the variables it needs"""
    w = REG.vars[i]
    x = z3var(i)
    out = []
    deps = set()

    def rv(f):
        f = Fraction(f)
        if w.isint:
            return z3.IntVal(int(f))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    if w.lo is not None:
        out.append(x > rv(w.lo) if w.los else x >= rv(w.lo))
    if w.hi is not None:
        out.append(x < rv(w.hi) if w.his else x <= rv(w.hi))
    if w.kind == 'sqrt':
        e, isi = z3poly(w.data)
        out.append(x * x == (z3.ToReal(e) if isi else e))
        deps |= P.pvars(w.data)
    elif w.kind == 'abs':
        e, isi = z3poly(w.data)
        if isi and not w.isint:
            e = z3.ToReal(e)
        out.append(x == z3.If(e >= 0, e, -e))
        deps |= P.pvars(w.data)
    elif w.kind == 'sin':
        c = [v for v in REG.vars if v.kind == 'cos' and v.data[0] == w.data[0]][0]
        cx = z3var(c.id)
        out.append(x * x + cx * cx == 1)
        deps.add(c.id)
    return out, deps


# ------------------------------------------------------------------ numerics
def evalpoly(p, env):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for i, e in m:
            v *= evalvar(i, env) ** e
        t += v
    return t


def evalvar(i, env):
    v = env.get(i)
    if v is not None:
        return v
    w = REG.vars[i]
    if w.kind == 'sqrt':
        r = evalpoly(w.data, env)
        v = math.sqrt(r) if r > 0 else 0.0
    elif w.kind == 'abs':
        v = abs(evalpoly(w.data, env))
    elif w.kind in ('cos', 'sin'):
        m, base = w.data[0]
        a = math.radians(evalpoly({m: base}, env))
        v = math.cos(a) if w.kind == 'cos' else math.sin(a)
    elif w.kind == 'fresh' and w.data is not None:
        how, x = w.data
        y = evalsym(x, env)
        v = float(math.floor(y)) if how == 'floor' else float(round(y))
    else:
        lo = float(w.lo) if w.lo is not None else -10.0
        hi = float(w.hi) if w.hi is not None else max(lo, 0) + 10.0
        v = (lo + hi) / 2
        if w.isint:
            v = float(round(v))
    env[i] = v
    return v


def evalsym(s, env):
    if not isinstance(s, Sym):
        return float(s)
    n = evalpoly(s.n, env)
    for f, e in s.d:
        d = evalpoly(FACT[f], env)
        if d == 0:
            return float('nan')
        n /= d ** e
    return n


def evalbool(b, env, slack=0.0):
    """numeric truth of a SymBool; slack > 0 asks for a margin"""
    if not isinstance(b, SymBool):
        return bool(b)
    if b.op == 'and':
        return all(evalbool(a, env, slack) for a in b.args)
    if b.op == 'or':
        return any(evalbool(a, env, slack) for a in b.args)
    v = evalpoly(b.args[0], env)
    if b.op == '>':
        return v > slack
    if b.op == '>=':
        return v >= slack if slack > 0 else v >= -1e-12
    if b.op == '==':
        return abs(v) <= 1e-9
    return abs(v) > max(slack, 1e-9)


# ------------------------------------------------------------------ engine
class Engine(object):
    def __init__(self):
        self.int_mode = 'fresh'
        self.reset_case()

    def reset_case(self, seed=1):
        reset_all()
        self.stats = {'queries': 0, 'solver_s': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0,
                      'normalised': 0, 'forks': 0}
        self.rng = random.Random(seed)
        self.t_fast = 1500
        self.t_slow = 10000
        self.max_values = 64
        self.start_path([])

    def start_path(self, prefix):
        reset_all()
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.cons = []
        self.facts = {}
        self.consv = []
        self.vals = {}
        self.constrained = set()
        self.model_fresh = False
        self.notes = []
        self.degraded = []
        self.aborted = None
        self.nfresh = 0
        self.maybe = False
        self.spectra = []
        self.undef = False
        self.bv = {}
        self.factors = {}
        self.bounds = {}
        self.subst = {}
        self.substv = 0

    # --- bounded integers: bit-vector back end
    def _bv_width(self, p, allv):
        """bits needed for every partial sum of p, None if p is not bounded integer"""
        k = ('w', P.pfreeze(p))
        r = _Z3CACHE.get(k)
        if r is not None:
            return r
        tot = 0
        l = 1
        for c in p.values():
            if isinstance(c, Fraction):
                l = l * c.denominator // math.gcd(l, c.denominator)
        for m, c in p.items():
            t = abs(int(c * l))
            for v, e in m:
                w = REG.vars[v]
                if not w.isint or w.lo is None or w.hi is None or w.kind not in ('in', 'fresh'):
                    return None
                t *= max(abs(int(w.lo)), abs(int(w.hi)), 1) ** e
                allv.add(v)
            tot += t
        r = max(tot, 1).bit_length() + 2
        _Z3CACHE[k] = r
        return r

    def _bv_need(self, b, allv):
        if not isinstance(b, SymBool):
            return 1
        if b.op in ('and', 'or'):
            w = 1
            for a in b.args:
                x = self._bv_need(a, allv)
                if x is None:
                    return None
                w = max(w, x)
            return w
        return self._bv_width(b.args[0], allv)

    def _bv_var(self, v, W):
        k = ('bv', v, W)
        r = _Z3CACHE.get(k)
        if r is None:
            r = z3.BitVec('b%d_%d' % (v, W), W)
            _Z3CACHE[k] = r
        return r

    def _bv_expr(self, b, W):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        k = ('bb', b.key(), W)
        r = _Z3CACHE.get(k)
        if r is not None:
            return r
        if b.op == 'and':
            r = z3.And(*[self._bv_expr(a, W) for a in b.args])
        elif b.op == 'or':
            r = z3.Or(*[self._bv_expr(a, W) for a in b.args])
        else:
            p = b.args[0]
            l = 1
            for c in p.values():
                if isinstance(c, Fraction):
                    l = l * c.denominator // math.gcd(l, c.denominator)
            e = None
            for m, c in p.items():
                t = None
                for v, x in m:
                    for _ in range(x):
                        t = self._bv_var(v, W) if t is None else t * self._bv_var(v, W)
                ci = int(c * l)
                if t is None:
                    t = z3.BitVecVal(ci, W)
                elif ci == -1:
                    t = -t
                elif ci != 1:
                    t = t * z3.BitVecVal(ci, W)
                e = t if e is None else e + t
            if e is None:
                e = z3.BitVecVal(0, W)
            z = z3.BitVecVal(0, W)
            r = {'>': e > z, '>=': e >= z, '==': e == z, '!=': e != z}[b.op]
        _Z3CACHE[k] = r
        return r

    def _bv_query(self, cond, comp):
        """'sat'/'unsat'/'unknown' or None when the problem is not bounded integer"""
        allv = set()
        need = self._bv_need(cond, allv) if isinstance(cond, SymBool) else 1
        if need is None:
            return None
        for k in comp:
            x = self._bv_need(self.cons[k], allv)
            if x is None:
                return None
            need = max(need, x)
        if need > 64 or not allv:
            return None
        for b in [cond] + [self.cons[k] for k in comp]:
            if isinstance(b, SymBool):
                bool_vars(b, allv)
        key = min(allv)
        st = self.bv.get(key)
        have = set(comp)
        if st is None or st['W'] < need or not st['have'] <= have:
            W = next(w for w in (12, 16, 24, 32, 48, 64) if w >= need)
            st = self.bv[key] = {'W': W, 'have': set(), 's': z3.SolverFor('QF_FD'), 'vars': set()}
        W = st['W']
        s = st['s']
        for v in allv - st['vars']:
            w = REG.vars[v]
            x = self._bv_var(v, W)
            st['vars'].add(v)
            s.add(x >= int(w.lo), x <= int(w.hi))
        for k in comp:
            if k not in st['have']:
                st['have'].add(k)
                s.add(self._bv_expr(self.cons[k], W))
        s.push()
        if isinstance(cond, SymBool):
            s.add(self._bv_expr(cond, W))
        r = self._check(s, self.t_slow)
        if r == z3.sat:
            m = s.model()
            self.lastmodel = {v: Fraction(m.eval(self._bv_var(v, W), model_completion=True).as_signed_long())
                              for v in allv}
        s.pop()
        return str(r)

    # --- housekeeping
    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def degrade(self, msg):
        if msg not in self.degraded:
            self.degraded.append(msg)

    def unsupported(self, msg):
        e = Unsupported(msg)
        self.aborted = e
        return e

    def tick(self):
        if self.aborted is not None:
            raise self.aborted
        if self.deadline is not None and time.time() > self.deadline:
            self.aborted = Budget('time')
            raise self.aborted

    deadline = None
    subst = {}
    substv = 0
    bounds = {}
    factors = {}

    # --- solver
    def declare(self, vs, solver, declared):
        todo = [v for v in vs if v not in declared]
        while todo:
            v = todo.pop()
            if v in declared:
                continue
            declared.add(v)
            ax, deps = var_axioms(v)
            for a in ax:
                solver.add(a)
            todo.extend(d for d in deps if d not in declared)

    def _check(self, s, timeout):
        s.set('timeout', int(timeout))
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r

    def component(self, vs):
        """indices of the constraints connected to the variables vs, and all their variables"""
        vs = set(vs)
        rest = list(range(len(self.cons)))
        comp = []
        changed = True
        while changed and rest:
            changed = False
            left = []
            for k in rest:
                if vs.isdisjoint(self.consv[k]):
                    left.append(k)
                else:
                    comp.append(k)
                    if not self.consv[k] <= vs:
                        vs |= self.consv[k]
                        changed = True
            rest = left
        comp.sort()
        return comp, vs

    def feasible(self, cond, slow=True):
        """'sat' | 'unsat' | 'unknown' for path and cond; sets self.lastmodel (the
        values of the variables connected to cond; the rest of the path is
        satisfiable on its own)"""
        self.lastmodel = None
        if not isinstance(cond, SymBool):
            if not cond:
                return 'unsat'
            return 'sat' if self.complete_vals() else 'unknown'
        comp, vs = self.component(self._closure(bool_vars(cond, set())))
        return self._solve(cond, comp, vs, slow)

    def _solve(self, cond, comp, vs, slow=True):
        cons = [self.cons[k] for k in comp]
        nonlin = any(REG.vars[v].kind in ('sqrt', 'sin', 'cos') for v in vs) or \
            any(isinstance(b, SymBool) and self._bool_nonlin(b) for b in cons + [cond])
        if not nonlin or not slow:
            s = z3.Solver()
            self.declare(vs, s, set())
            for b in cons:
                s.add(z3bool(b))
            if isinstance(cond, SymBool):
                s.add(z3bool(cond))
            r = self._check(s, self.t_fast)
            if r == z3.sat:
                self.lastmodel = self.extract(s.model(), vs)
            if r != z3.unknown:
                return str(r)
            if not slow:
                return 'unknown'
        real = sum(1 for v in vs if not REG.vars[v].isint and REG.vars[v].kind == 'in')
        if any(REG.vars[v].isint for v in vs) and any(not REG.vars[v].isint for v in vs):
            # one real input: the boxes stay few; more: z3 is usually faster
            if real > 1:
                r = self._oneshot(cond, cons, vs, 400)
                if r != 'unknown':
                    return r
            r = self._icp_query(cond, cons, vs)
            if r is not None:
                return r
        elif real == 1:
            # boxes do not end on a curve
            if any(_has_eq(b) for b in cons + [cond] if isinstance(b, SymBool)):
                r = self._oneshot(cond, cons, vs, 300)
                if r != 'unknown':
                    return r
            r = self._icp_query(cond, cons, vs, 5.0)
            if r is not None:
                return r
        r = self._bv_query(cond, comp)
        if r is not None and r != 'unknown':
            return r
        return self._oneshot(cond, cons, vs)

    def _icp_query(self, cond, cons, vs, tmax=4.0):
        """interval branch and prune for mixed integer nonlinear queries"""
        t = time.time()
        try:
            conds = list(cons) + ([cond] if isinstance(cond, SymBool) else [])
            q = icp.Icp(conds, lambda b: isinstance(b, SymBool), lambda v: REG.vars[v], tmax)
            r, pt = q.run()
        except (icp.Bail, OverflowError, ZeroDivisionError):
            return None
        finally:
            self.stats['solver_s'] += time.time() - t
        if r is None:
            return None
        self.stats['icp'] = self.stats.get('icp', 0) + 1
        if r == 'sat':
            if not set(vs) <= set(pt):
                for v in set(vs) - set(pt):
                    w = REG.vars[v]
                    if w.kind != 'in':
                        return None
                    lo, hi = w.lo, w.hi
                    x = Fraction(1) if lo is None and hi is None else Fraction(hi) if lo is None else Fraction(lo)
                    pt[v] = x
            self.lastmodel = pt
        return r

    def extract(self, m, vs):
        out = {}
        for v in vs:
            if ('v', v) not in _Z3CACHE:
                continue
            x = m.eval(z3var(v), model_completion=True)
            if z3.is_int_value(x):
                out[v] = Fraction(x.as_long())
            elif z3.is_rational_value(x):
                out[v] = x.as_fraction()
            elif z3.is_algebraic_value(x):
                out[v] = float(x.approx(20).as_fraction())
        return out

    def complete_vals(self):
        """solve every component that has no valid values"""
        done = set()
        for k in range(len(self.cons)):
            if k in done:
                continue
            comp, vs = self.component(self.consv[k])
            done.update(comp)
            if all(v in self.vals for v in vs):
                continue
            r = self._solve(None, comp, vs)
            if r == 'unsat':
                self.aborted = PathInfeasible('model')
                raise self.aborted
            if r != 'sat':
                return False
            self.vals.update(self.lastmodel)
        self.lastmodel = dict(self.vals)
        return True

    def mval(self, v):
        """value of a variable in the current assignment, None if unknown"""
        x = self.vals.get(v)
        if x is not None:
            return x
        w = REG.vars[v]
        if v in self.constrained:
            return None
        if w.kind == 'in' or (w.kind == 'fresh' and w.data is None):
            lo, hi = w.lo, w.hi
            if lo is None and hi is None:
                x = Fraction(1)
            elif lo is None:
                x = Fraction(hi) - 1
            elif hi is None:
                x = Fraction(lo) + 1
            else:
                x = (Fraction(lo) + Fraction(hi)) / 2
            if w.isint:
                x = Fraction(math.floor(x))
            self.vals[v] = x
            return x
        if w.kind == 'abs':
            x = self.mpoly(w.data)
            return None if x is None else abs(x)
        if w.kind == 'sqrt':
            x = self.mpoly(w.data)
            return None if x is None or x < 0 else math.sqrt(x)
        return None

    def mpoly(self, p):
        t = Fraction(0)
        for m, c in p.items():
            y = Fraction(c)
            for v, e in m:
                x = self.mval(v)
                if x is None:
                    return None
                y = y * x ** e
            t = t + y
        return t

    def msays(self, b):
        """truth of b under the current assignment, None if unknown"""
        if not isinstance(b, SymBool):
            return bool(b)
        if b.op == 'and':
            r = True
            for a in b.args:
                x = self.msays(a)
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        if b.op == 'or':
            r = False
            for a in b.args:
                x = self.msays(a)
                if x is True:
                    return True
                if x is None:
                    r = None
            return r
        try:
            x = self.mpoly(b.args[0])
        except (OverflowError, ZeroDivisionError):
            return None
        if x is None:
            return None
        if isinstance(x, float) and abs(x) < 1e-7:
            return None
        return {'>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[b.op]

    def _bool_nonlin(self, b):
        if b.op in ('and', 'or'):
            return any(self._bool_nonlin(a) for a in b.args if isinstance(a, SymBool))
        return any(sum(e for _, e in m) > 1 for m in b.args[0])

    def _closure(self, vs):
        """variables connected through atom definitions"""
        out = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in out:
                continue
            out.add(v)
            w = REG.vars[v]
            if w.kind in ('sqrt', 'abs'):
                todo.extend(P.pvars(w.data))
            elif w.kind == 'sin':
                todo.extend(c.id for c in REG.vars if c.kind == 'cos' and c.data[0] == w.data[0])
        return out

    def _oneshot(self, cond, cons, allv, cap=None):
        cv = self._closure(bool_vars(cond, set()) if isinstance(cond, SymBool) else set())
        hasint = any(REG.vars[v].isint for v in allv)
        hasreal = any(not REG.vars[v].isint for v in allv)
        stages = []
        # cone of influence first: unsat there is unsat
        if isinstance(cond, SymBool) and cons:
            near = [b for b in cons if self._closure(bool_vars(b, set())) <= cv]
            if len(near) < len(cons):
                stages.append((near, False, 0.5))
        stages.append((cons, True, 1.0))
        for cs, full, frac in stages:
            for kind in (['QF_NRA', None] if hasreal and not hasint else [None]):
                s = z3.SolverFor(kind) if kind else z3.Solver()
                decl = set()
                vs = set()
                for b in cs:
                    vs |= bool_vars(b, set())
                if isinstance(cond, SymBool):
                    vs |= bool_vars(cond, set())
                self.declare(vs, s, decl)
                for b in cs:
                    s.add(z3bool(b))
                if isinstance(cond, SymBool):
                    s.add(z3bool(cond))
                r = self._check(s, cap or (self.t_slow * frac if kind or hasint else self.t_fast))
                if r == z3.unsat:
                    return 'unsat'
                if r == z3.sat and full:
                    self.lastmodel = self.extract(s.model(), decl | set(allv))
                    return 'sat'
                if r == z3.sat:
                    break
        return 'unknown'

    # --- facts
    def known_sign(self, x):
        """1, -1, 0 (>=0), -2 (<=0), 2 (!=0) or None; no solver"""
        if not isinstance(x, Sym):
            v = float(x)
            return 1 if v > 0 else (-1 if v < 0 else 0)
        s = 1
        r = self._poly_sign(x.n)
        if r is None:
            return None
        for f, e in x.d:
            if e % 2:
                t = self._poly_sign(FACT[f])
                if t is None or t == 2:
                    return None if t is None else 2 if r in (1, -1, 2) else None
                if t in (-1, -2):
                    s = -s
        if s < 0:
            r = {1: -1, -1: 1, 0: -2, -2: 0, 2: 2}[r]
        return r

    def square_fact(self, x, r):
        """r is an even power of x"""
        if r.d and any(e % 2 for _, e in r.d):
            return
        s = self.known_sign(x)
        cont = P.pcontent(r.n)
        k = P.pfreeze(P.pscale(r.n, 1 / cont))
        if self.facts.get(k) not in (1, -1):
            self._fact(r.n, 1 if s in (1, -1, 2) else 0)

    def _split(self, p):
        """(key of the non-constant part, sign scale, constant) of a scaled polynomial"""
        c0 = p.get(ONE, 0)
        q = {m: c for m, c in p.items() if m}
        cont = P.pcontent(q)
        if q[P.lead(q)] < 0:
            cont = -cont
        q = P.pscale(q, 1 / cont)
        return P.pfreeze(q), cont, c0

    def _bound(self, p, s):
        """remember p >= 0 (s = 0 or 1) / p <= 0 as a bound on its non-constant part"""
        if len(p) < 2 and ONE in p:
            return
        k, sc, c0 = self._split(p)
        lo, los, hi, his = self.bounds.get(k, (None, False, None, False))
        # sc*q + c0 >= 0
        b = Fraction(-c0) / sc
        ge = (s in (0, 1)) == (sc > 0)
        st = s in (1, -1)
        if ge:
            if lo is None or b > lo or (b == lo and st):
                lo, los = b, st
        else:
            if hi is None or b < hi or (b == hi and st):
                hi, his = b, st
        self.bounds[k] = (lo, los, hi, his)

    def _bound_sign(self, p):
        k, sc, c0 = self._split(p)
        b = self.bounds.get(k)
        if b is None:
            return None
        lo, los, hi, his = b
        if sc < 0:
            lo, los, hi, his = hi, his, lo, los
        if lo is not None:
            v = sc * lo + c0
            if v > 0 or (v == 0 and los):
                return 1
        if hi is not None:
            w = sc * hi + c0
            if w < 0 or (w == 0 and his):
                return -1
        if lo is not None and v == 0:
            return 0
        if hi is not None and w == 0:
            return -2
        return None

    def _poly_sign(self, p):
        c = P.pconst(p)
        if c is not None:
            return 1 if c > 0 else (-1 if c < 0 else 0)
        cont = P.pcontent(p)
        k = P.pfreeze(P.pscale(p, 1 / cont))
        f = self.facts.get(k)
        if f in (1, -1):
            return f
        if self.bounds:
            r = self._bound_sign(p)
            if r is not None:
                if f == 2 and r in (0, -2):
                    r = 1 if r == 0 else -1
                return r
        if f is not None:
            return f
        r = None
        if len(p) <= 60:
            lo, hi, sl, sh = P.pinterval(p)
            if lo is not None and (lo > 0 or (lo == 0 and sl)):
                r = 1
            elif hi is not None and (hi < 0 or (hi == 0 and sh)):
                r = -1
            elif lo is not None and lo == 0:
                r = 0
            elif hi is not None and hi == 0:
                r = -2
            if r is None and len(p) > 1:
                mc = P.pmonocontent(p)
                if mc:
                    q = P.pdivexact(p, {mc: 1})
                    sq = self._poly_sign(q) if P.pconst(q) is None else (1 if P.pconst(q) > 0 else -1)
                    sm = 1
                    for v, e in mc:
                        if e % 2:
                            t = self._poly_sign({((v, 1),): 1})
                            if t == 1:
                                continue
                            sm = None
                            break
                        else:
                            t = self._poly_sign({((v, 1),): 1})
                            if t not in (1, -1, 2):
                                sm = None
                                break
                    if sm == 1:
                        r = sq
        if r is None and 3 < len(p) <= 800 and self.factors:
            q, sg = p, 1
            for f in list(self.factors.values())[-24:]:
                if len(f) >= len(q):
                    continue
                d = P.pdivexact(q, f)
                if d is None:
                    continue
                sf = self._poly_sign(f)
                if sf in (1, -1, 2):
                    q = d
                    if sf == 2:
                        sg = 2
                    elif sg != 2:
                        sg *= sf
            if q is not p:
                cq = P.pconst(q)
                t = (1 if cq > 0 else -1) if cq is not None else self._poly_sign(q)
                if t in (1, -1):
                    r = 2 if sg == 2 else t * sg
                elif t == 2:
                    r = 2
                elif t in (0, -2) and sg != 2:
                    r = t if sg == 1 else {0: -2, -2: 0}[t]
        if r is not None:
            self.facts[k] = r
        return r

    def quick(self, b):
        """True/False/None without the solver"""
        if not isinstance(b, SymBool):
            return bool(b)
        if b.op == 'and':
            allt = True
            for a in b.args:
                q = self.quick(a)
                if q is False:
                    return False
                if q is None:
                    allt = False
            return True if allt else None
        if b.op == 'or':
            allf = True
            for a in b.args:
                q = self.quick(a)
                if q is True:
                    return True
                if q is None:
                    allf = False
            return False if allf else None
        s = self._poly_sign(b.args[0])
        if s is None:
            return None
        if b.op == '>':
            return {1: True, -1: False, 0: None, -2: False, 2: None}[s]
        if b.op == '>=':
            return {1: True, -1: False, 0: True, -2: None, 2: None}[s]
        if b.op == '==':
            return {1: False, -1: False, 0: None, -2: None, 2: False}[s]
        return {1: True, -1: True, 0: None, -2: None, 2: True}[s]

    def _fact(self, p, s):
        if s in (1, -1, 2) and len(p) > 1:
            c, f = P.pmonic(p)
            self.factors[P.pfreeze(f)] = f
        if s != 2:
            self._bound(p, s)
        cont = P.pcontent(p)
        k = P.pscale(p, 1 / cont)
        kk = P.pfreeze(k)
        old = self.facts.get(kk)
        merged = s
        if old is not None and old != s:
            if {old, s} == {0, 2}:
                merged = 1
            elif {old, s} == {-2, 2}:
                merged = -1
            elif old in (1, -1):
                merged = old
        self.facts[kk] = merged
        nk = P.pfreeze(P.pscale(k, -1))
        self.facts[nk] = {1: -1, -1: 1, 0: -2, -2: 0, 2: 2}[merged]

    def assert_(self, b):
        if not isinstance(b, SymBool):
            if not b:
                self.aborted = PathInfeasible('false')
                raise self.aborted
            return
        if b.op == 'and':
            for a in b.args:
                self.assert_(a)
            return
        q = self.quick(b)
        if q is True:
            return
        if q is False:
            self.aborted = PathInfeasible('facts')
            raise self.aborted
        holds = self.msays(b)
        self.cons.append(b)
        cv = self._closure(bool_vars(b, set()))
        self.consv.append(cv)
        self.constrained |= cv
        if holds is not True:
            _, vs = self.component(cv)
            for v in vs:
                self.vals.pop(v, None)
        if b.op == '==':
            self._learn(b.args[0])
        elif b.op == 'or' and len(b.args) == 2 and all(isinstance(a, SymBool) and a.op in ('>', '>=') for a in b.args):
            p1, p2 = b.args[0].args[0], b.args[1].args[0]
            q1 = {m: c for m, c in p1.items() if m}
            q2 = {m: c for m, c in p2.items() if m}
            sc = P.pcontent(q2) / P.pcontent(q1)
            if P.padd(P.pscale(q1, sc), q2) == {}:
                if p1.get(ONE, 0) < 0 and p2.get(ONE, 0) < 0:
                    self._fact(q1, 2)
        if b.op == '>':
            self._fact(b.args[0], 1)
        elif b.op == '>=':
            p = b.args[0]
            self._fact(p, 0)
            if all(not isinstance(c, Fraction) for c in p.values()) and \
                    all(REG.vars[v].isint for v in P.pvars(p)):
                self._fact(P.padd(p, {ONE: 1}), 1)
        elif b.op == '!=':
            self._fact(b.args[0], 2)

    def _learn(self, p):
        """a linear equality between integer inputs eliminates one of them"""
        if self.subst:
            p = psubst(p, self.subst)
        best = None
        for m, c in p.items():
            if not m:
                continue
            if len(m) != 1 or m[0][1] != 1:
                return
            w = REG.vars[m[0][0]]
            if not w.isint or w.kind != 'in':
                return
            k = (abs(c) != 1, w.id)
            if best is None or k < best[0]:
                best = (k, w.id, c)
        if best is None:
            return
        _, v, c = best
        rest = {m: x for m, x in p.items() if m != ((v, 1),)}
        q = P.pscale(rest, Fraction(-1) / c)
        one = {v: q}
        for u in list(self.subst):
            self.subst[u] = psubst(self.subst[u], one)
        self.subst[v] = q
        self.substv += 1

    # --- decisions
    def decide(self, cond):
        self.tick()
        q = self.quick(cond)
        if q is not None:
            return q
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assert_(cond if d else Not(cond))
            return d
        ms = self.msays(cond)
        ncond = Not(cond)
        mt = mf = None
        if ms is True:
            t = 'sat'
        else:
            t = self.feasible(cond)
            mt = self.lastmodel
        if ms is False:
            f = 'sat'
        elif t == 'unsat':
            f = 'sat'       # the path itself is taken as feasible
        else:
            f = self.feasible(ncond)
            mf = self.lastmodel
        if t == 'unsat' and f == 'unsat':
            self.aborted = PathInfeasible('both')
            raise self.aborted
        if t != 'unsat' and f != 'unsat':
            self.stats['forks'] += 1
            self.pending.append(list(self.trace) + [False])
            if t == 'unknown':
                self.maybe = True
            d = True
        else:
            d = t != 'unsat'
        self.trace.append(d)
        m = mt if d else mf
        if m:
            self.vals.update(m)
        self.assert_(cond if d else ncond)
        return d

    def sign(self, x):
        """concrete sign, forking if needed"""
        if not isinstance(x, Sym):
            v = float(x)
            return (v > 0) - (v < 0)
        z = lift(0)
        if bool(compare(x, z, '>')):
            return 1
        if bool(compare(x, z, '==')):
            return 0
        return -1

    def path_model(self):
        """values satisfying the path, or None"""
        return self.vals if self.complete_vals() else None

    def _value_choice(self, kind, getvalue, condof):
        """branch over concrete values proposed by the solver"""
        self.tick()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d[0] == 'is':
                self.assert_(condof(d[1]))
                return d[1]
            excl = d[1]
        else:
            excl = None
        if excl is not None:
            self.trace.pop()
            for v in excl:
                self.assert_(Not(condof(v)))
        excl = tuple(excl or ())
        if len(excl) >= self.max_values:
            self.aborted = Budget('values')
            raise self.aborted
        v = getvalue()
        if v in excl:
            self.aborted = Budget('the solver proposed an excluded value')
            raise self.aborted
        if self.feasible(Not(condof(v))) != 'unsat':
            self.stats['forks'] += 1
            self.pending.append(list(self.trace) + [('not', excl + (v,))])
        self.trace.append(('is', v))
        self.assert_(condof(v))
        return v

    def _model_value(self, x):
        m = self.path_model()
        if m is not None:
            t = self.mpoly(x.n)
            if t is not None:
                for f, e in x.d:
                    q = self.mpoly(FACT[f])
                    if q is None or q == 0:
                        t = None
                        break
                    t = t / q ** e
            if t is not None:
                return Fraction(t)
            return Fraction(evalsym(x, self.model_env(m)))
        env = self.probe([])
        if env is None:
            self.aborted = Budget('no model')
            raise self.aborted
        return Fraction(evalsym(x, env))

    def concretize(self, x):
        """concrete integer value of an integer Sym, branching over all of them"""
        if not isinstance(x, Sym):
            return x
        c = P.pconst(x.n) if not x.d else None
        if c is not None:
            return int(c)
        if not x.isint and not provably_int(x):
            y = sym_rint(x, True)
            if not isinstance(y, Sym):
                return int(y)
            x = y

        def val():
            return int(round(self._model_value(x)))
        return self._value_choice('int', val, lambda v: compare(x, lift(v), '=='))

    def fork_int(self, x, how):
        if how == 'floor':
            def val():
                return math.floor(self._model_value(x))

            def cond(k):
                return And(compare(x, lift(k), '>='), compare(x, lift(k + 1), '<'))
        else:
            def val():
                return round(self._model_value(x))

            def cond(k):
                lo, hi = lift(k - Fraction(1, 2)), lift(k + Fraction(1, 2))
                if k % 2 == 0:
                    return And(compare(x, lo, '>='), compare(x, hi, '<='))
                return And(compare(x, lo, '>'), compare(x, hi, '<'))
        return self._value_choice(how, val, cond)

    def fresh_int(self, how, x):
        self.nfresh += 1
        key = '%s#%s' % (how, (P.pfreeze(x.n), x.d))
        return REG.new(key, 'fresh', isint=True, data=(how, x))

    def fresh_real(self, name, lo=None, hi=None):
        self.nfresh += 1
        return Sym({((REG.new('%s!%d' % (name, self.nfresh), 'fresh', lo=lo, hi=hi).id, 1),): 1}, (), False)

    def pin(self, x):
        """concretise a real value (the path is only a sample afterwards)"""
        if not isinstance(x, Sym):
            return x
        c = P.pconst(x.n) if not x.d else None
        if c is not None:
            return float(c)
        if provably_int(x):
            return float(self.concretize(x))
        self.tick()
        self.degrade('concretised a real value')
        m = self.path_model()
        env = self.model_env(m) if m is not None else self.probe([])
        if env is None:
            self.aborted = Budget('no model to concretise')
            raise self.aborted
        return evalsym(x, env)

    # --- models
    def model_env(self, m):
        """numeric environment {var id: float} for the input variables"""
        env = {}
        trigfix = {}
        full = dict(self.vals)
        full.update(m)
        for w in REG.vars:
            if w.kind in ('in', 'fresh', 'cos', 'sin') and w.id in full:
                x = full[w.id]
                env[w.id] = int(x) if w.isint else float(x)
        for w in REG.vars:
            if w.kind == 'cos' and w.id in env:
                sn = [v for v in REG.vars if v.kind == 'sin' and v.data[0] == w.data[0]]
                c = env.pop(w.id)
                s = None
                if sn:
                    s = env.pop(sn[0].id, None)
                if s is None:
                    s = math.sqrt(max(0.0, 1 - c * c))
                trigfix[w.data[0]] = math.degrees(math.atan2(s, c))
            elif w.kind == 'sin' and w.id in env:
                cn = [v for v in REG.vars if v.kind == 'cos' and v.data[0] == w.data[0]]
                if cn and cn[0].id in env:
                    continue
                s = env.pop(w.id)
                trigfix.setdefault(w.data[0], math.degrees(math.asin(max(-1, min(1, s)))))
        for (mono, base), a in trigfix.items():
            if len(mono) == 1 and mono[0][1] == 1:
                v = REG.vars[mono[0][0]]
                x = a / float(base)
                per = 360.0 / float(base)
                lo = float(v.lo) if v.lo is not None else None
                hi = float(v.hi) if v.hi is not None else None
                if lo is not None:
                    while x < lo - 1e-9:
                        x += per
                if hi is not None:
                    while x > hi + 1e-9:
                        x -= per
                env[v.id] = x
        for w in REG.vars:
            if w.kind == 'in' and w.id not in env:
                evalvar(w.id, env)
        # drop fresh definitions so they are recomputed
        for w in REG.vars:
            if w.kind == 'fresh' and w.data is not None:
                env.pop(w.id, None)
        return env

    def probe(self, conds, tries=400, slack=0.0, tmax=2.0):
        """random search for an input point on the path that satisfies conds"""
        ins = [w for w in REG.vars if w.kind == 'in' or (w.kind == 'fresh' and w.data is None)]
        t0 = time.time()
        cons = [b for b in self.cons if isinstance(b, SymBool)]
        base = None
        for k in range(tries):
            if k % 16 == 0 and time.time() - t0 > tmax:
                break
            env = {}
            for w in ins:
                lo = float(w.lo) if w.lo is not None else -5.0
                hi = float(w.hi) if w.hi is not None else lo + 10.0
                if w.isint:
                    env[w.id] = self.rng.randint(int(lo), int(hi))
                else:
                    mode = self.rng.random()
                    if mode < 0.3:
                        lo2, hi2 = max(lo, -3.0), min(hi, 3.0)
                        if lo2 < hi2:
                            lo, hi = lo2, hi2
                    env[w.id] = lo + (hi - lo) * (0.02 + 0.96 * self.rng.random())
            try:
                if all(evalbool(b, env) for b in cons) and all(evalbool(b, env, slack) for b in conds):
                    return env
            except (OverflowError, ZeroDivisionError):
                continue
        return None

    def inputs_of(self, env):
        out = {}
        for w in REG.vars:
            if w.kind == 'in':
                v = env.get(w.id)
                if v is None:
                    v = evalvar(w.id, env)
                out[w.name] = int(v) if w.isint else float(v)
        return out


ENG = Engine()
