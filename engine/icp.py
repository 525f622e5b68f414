"""Interval branch and prune for polynomial constraints over boxes of reals and integers.

Used in front of z3 for the nonlinear mixed integer queries that rounding produces. Sound in both answers:
'unsat' from outward rounded interval arithmetic on every box of a cover, 'sat' from an exactly evaluated point."""
import math
import time
from fractions import Fraction

EPS = 1e-13
INF = float('inf')


class Bail(Exception):
    pass


class Terms(list):
    """coefficients (divided by the largest) and monomials; dense coefficients if there is one variable"""
    uni = None


def _terms(p):
    big = max(abs(c) for c in p.values())
    t = Terms((float(Fraction(c) / Fraction(big)), m) for m, c in p.items())
    vs = set(v for m in p for v, _ in m)
    if len(vs) == 1:
        d = [0.0] * (1 + max([e for m in p for _, e in m]))
        for c, m in t:
            d[m[0][1] if m else 0] = c
        t.uni = (vs.pop(), d)
    return t


def _taylor(d, lo, hi):
    """range of a polynomial in one variable, from its expansion about the middle"""
    m = (lo + hi) / 2
    r = max(hi - m, m - lo) * (1 + 1e-15)
    c = list(d)
    n = len(c)
    am = abs(m) + r
    big = 0.0
    for x in reversed(d):
        big = big * am + abs(x)
    for i in range(n - 1):
        for j in range(n - 2, i - 1, -1):
            c[j] += m * c[j + 1]
    w, rk = 0.0, 1.0
    lo2 = hi2 = c[0]
    for k in range(1, n):
        rk *= r
        x = c[k] * rk
        if k % 2:
            lo2 -= abs(x)
            hi2 += abs(x)
        else:
            lo2 += min(x, 0.0)
            hi2 += max(x, 0.0)
    big *= EPS * (n * n + 4)
    if not (big < 1e200):
        raise Bail()
    return lo2 - big, hi2 + big


def _tree(b, isbool, vs):
    if not isbool(b):
        return ('const', bool(b))
    if b.op in ('and', 'or'):
        return (b.op, [_tree(a, isbool, vs) for a in b.args])
    p = b.args[0]
    if not p:
        return ('const', {'>': False, '>=': True, '==': True, '!=': False}[b.op])
    if len(p) > 600:
        raise Bail()
    for m in p:
        for v, e in m:
            if e > 60:
                raise Bail()
            vs.add(v)
    return ('atom', b.op, _terms(p), p)


def _pow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e % 2:
        return lo ** e, hi ** e
    if lo >= 0:
        return lo ** e, hi ** e
    if hi <= 0:
        return hi ** e, lo ** e
    return 0.0, max(-lo, hi) ** e


def _mono(m, box):
    lo = hi = 1.0
    for v, e in m:
        a, b = _pow(box[v][0], box[v][1], e)
        x = (lo * a, lo * b, hi * a, hi * b)
        lo, hi = min(x), max(x)
    return lo, hi


def _sum(terms, box):
    if getattr(terms, 'uni', None) is not None:
        lo, hi = box[terms.uni[0]]
        if hi - lo < 0.5:
            return _taylor(terms.uni[1], lo, hi)
    lo = hi = s = 0.0
    for c, m in terms:
        a, b = _mono(m, box)
        if c >= 0:
            a, b = c * a, c * b
        else:
            a, b = c * b, c * a
        lo += a
        hi += b
        s += abs(a) + abs(b)
    s *= EPS * (len(terms) + 4)
    if not (s < 1e200):
        raise Bail()
    return lo - s, hi + s


def _eval(t, box):
    """True, False or None over the box"""
    if t[0] == 'const':
        return t[1]
    if t[0] == 'and':
        r = True
        for a in t[1]:
            x = _eval(a, box)
            if x is False:
                return False
            if x is None:
                r = None
        return r
    if t[0] == 'or':
        r = False
        for a in t[1]:
            x = _eval(a, box)
            if x is True:
                return True
            if x is None:
                r = None
        return r
    lo, hi = _sum(t[2], box)
    op = t[1]
    if op == '>':
        return True if lo > 0 else False if hi <= 0 else None
    if op == '>=':
        return True if lo >= 0 else False if hi < 0 else None
    if op == '==':
        return False if lo > 0 or hi < 0 else None
    return True if lo > 0 or hi < 0 else None


def _vars(t):
    if t[0] == 'const':
        return set()
    if t[0] in ('and', 'or'):
        return set().union(*[_vars(a) for a in t[1]])
    return set(x for m in t[3] for x, _ in m)


def _exact(t, pt):
    if t[0] == 'const':
        return t[1]
    if t[0] == 'and':
        return all(_exact(a, pt) for a in t[1])
    if t[0] == 'or':
        return any(_exact(a, pt) for a in t[1])
    s = Fraction(0)
    for m, c in t[3].items():
        y = Fraction(c)
        for v, e in m:
            y *= pt[v] ** e
        s += y
    return {'>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[t[1]]


class Icp:
    def __init__(self, conds, isbool, var, tmax=4.0, nodes=30000):
        self.vs = set()
        self.trees = []
        for b in conds:
            self._flat(_tree(b, isbool, self.vs))
        self.isint = {}
        self.box0 = {}
        # absolute values and square roots are computed from the other variables
        self.derived = []
        todo = sorted(self.vs)
        while todo:
            v = todo.pop()
            w = var(v)
            if w.kind in ('abs', 'sqrt') and v not in [d[0] for d in self.derived]:
                self.derived.append((v, w.kind, _terms(w.data), w.data))
                for m in w.data:
                    for x, e in m:
                        if x not in self.vs:
                            self.vs.add(x)
                            todo.append(x)
        # definitions in terms of older variables first
        self.derived.sort()
        der = set(d[0] for d in self.derived)
        self.scale = {d[0]: float(max(abs(Fraction(c)) for c in d[3].values())) for d in self.derived}
        self.vs -= der
        self.roots = any(d[1] == 'sqrt' for d in self.derived)
        for v in self.vs:
            w = var(v)
            if w.kind not in ('in', 'fresh') or (w.kind == 'fresh' and not w.isint):
                raise Bail()
            self.isint[v] = w.isint
            lo = -INF if w.lo is None else float(w.lo)
            hi = INF if w.hi is None else float(w.hi)
            if not w.isint:
                if lo == -INF or hi == INF:
                    raise Bail()
                lo, hi = math.nextafter(lo, -INF), math.nextafter(hi, INF)
            self.box0[v] = (lo, hi)
        self.lin = {}
        for i, t in enumerate(self.trees):
            if t[0] != 'atom' or t[1] == '!=':
                continue
            L = []
            for v in set(x for m in t[3] for x, _ in m):
                A, B, ok = [], [], True
                for c, m in t[2]:
                    e = dict(m).get(v, 0)
                    if e > 1:
                        ok = False
                        break
                    if e:
                        A.append((c, tuple(q for q in m if q[0] != v)))
                    else:
                        B.append((c, m))
                if ok and v not in der:
                    L.append((v, A, B))
            self.lin[i] = L
        self.deadline = time.time() + tmax
        self.nodes = nodes
        self.exact_bounds = {v: (var(v).lo, var(v).hi) for v in self.vs}

    def _flat(self, t):
        if t[0] == 'and':
            for a in t[1]:
                self._flat(a)
        elif t != ('const', True):
            self.trees.append(t)

    def _derive(self, box):
        for v, kind, terms, _ in self.derived:
            if any(box[x][0] == -INF or box[x][1] == INF for _, m in terms for x, _ in m):
                box[v] = (0.0, INF)
                continue
            lo, hi = _sum(terms, box)
            lo, hi = lo * self.scale[v], hi * self.scale[v]
            if kind == 'abs':
                box[v] = (0.0, max(-lo, hi)) if lo < 0 < hi else (min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
            else:
                if hi < 0:
                    return False
                box[v] = (math.sqrt(max(lo, 0.0)) * (1 - 1e-14), math.sqrt(hi) * (1 + 1e-14))
        return True

    def _contract(self, box, rounds=3):
        """False if the box is empty"""
        for _ in range(rounds):
            changed = False
            if not self._derive(box):
                return False
            for i, t in enumerate(self.trees):
                if i not in self.lin:
                    continue
                for v, A, B in self.lin[i]:
                    others = [x for c, m in A + B for x, _ in m]
                    if any(box[x][0] == -INF or box[x][1] == INF for x in others):
                        continue
                    al, ah = _sum(A, box)
                    bl, bh = _sum(B, box) if B else (0.0, 0.0)
                    lo, hi = box[v]
                    for s in ((1, -1) if t[1] == '==' else (1,)):
                        a0, a1, b1 = (al, ah, bh) if s == 1 else (-ah, -al, -bl)
                        # some a in [a0, a1], some b <= b1 with a v + b >= 0
                        if a0 > 0:
                            x = min(-b1 / a0, -b1 / a1)
                            x -= abs(x) * 1e-12
                            if x > lo:
                                lo = x
                        elif a1 < 0:
                            x = max(b1 / -a0, b1 / -a1)
                            x += abs(x) * 1e-12
                            if x < hi:
                                hi = x
                    if self.isint[v]:
                        if lo > -INF:
                            lo = float(math.ceil(lo - 1e-9))
                        if hi < INF:
                            hi = float(math.floor(hi + 1e-9))
                    if lo > hi:
                        return False
                    if (lo, hi) != box[v]:
                        if box[v][0] == -INF or box[v][1] == INF or hi - lo < 0.7 * (box[v][1] - box[v][0]):
                            changed = True
                        box[v] = (lo, hi)
            if not changed:
                break
        return self._derive(box)

    def _try(self, box):
        """a point of the box that satisfies everything, or None"""
        b = {}
        for v in self.vs:
            lo, hi = box[v]
            if not self.isint[v]:
                el, eh = self.exact_bounds[v]
                x = min(max((lo + hi) / 2, float(el)), float(eh))
                b[v] = (x, x)
            else:
                b[v] = (lo, hi)
        try:
            if not self._contract(b, 2):
                return None
        except (Bail, OverflowError, ZeroDivisionError):
            return None
        pt = {}
        for v in self.vs:
            lo, hi = b[v]
            if self.isint[v]:
                if lo == -INF and hi == INF:
                    x = 0
                else:
                    x = lo if lo > -INF else hi
                    if lo > -INF and hi < INF:
                        x = math.floor((lo + hi) / 2)
                pt[v] = Fraction(int(x))
            else:
                x = Fraction((box[v][0] + box[v][1]) / 2)
                el, eh = self.exact_bounds[v]
                pt[v] = min(max(x, Fraction(el)), Fraction(eh))
        for v, (el, eh) in self.exact_bounds.items():
            if (el is not None and pt[v] < el) or (eh is not None and pt[v] > eh):
                return None
        rooty = set()
        for v, kind, _, data in self.derived:
            s = Fraction(0)
            for m, c in data.items():
                y = Fraction(c)
                for x, e in m:
                    y *= pt[x] ** e
                    if x in rooty:
                        rooty.add(v)
                s += y
            if kind == 'sqrt':
                if s < 0:
                    return None
                rooty.add(v)
                s = Fraction(math.sqrt(s))
            pt[v] = abs(s)
        if not rooty:
            return pt if all(_exact(t, pt) for t in self.trees) else None
        # roots have no exact value: enclosures
        b = {v: (math.nextafter(float(pt[v]), -INF), math.nextafter(float(pt[v]), INF)) if pt[v].denominator > 1 else (float(pt[v]),) * 2
             for v in self.vs}
        try:
            if not self._derive(b):
                return None
            for t in self.trees:
                if not (_eval(t, b) if _vars(t) & rooty else _exact(t, pt)):
                    return None
        except (Bail, OverflowError, ZeroDivisionError):
            return None
        return {v: float(x) if v in rooty else x for v, x in pt.items()}

    def run(self):
        """('unsat', None), ('sat', point) or (None, None)"""
        if any(t == ('const', False) for t in self.trees):
            return 'unsat', None
        todo = [(self.box0, 0)]
        n = 0
        open_box = False
        while todo:
            box, depth = todo.pop()
            n += 1
            if n > self.nodes or (n % 16 == 0 and time.time() > self.deadline):
                return None, None
            box = dict(box)
            if not self._contract(box):
                continue
            und = False
            dead = False
            if any(lo == -INF or hi == INF for lo, hi in (box[v] for v in self.vs)):
                pt = self._try(box)
                return ('sat', pt) if pt is not None else (None, None)
            for t in self.trees:
                r = _eval(t, box)
                if r is False:
                    dead = True
                    break
                if r is None:
                    und = True
            if dead:
                continue
            if n < 4 or depth % 3 == 0 or not und:
                pt = self._try(box)
                if pt is not None:
                    return 'sat', pt
            # widest variable: integers first
            best, wid = None, 0
            for v in self.vs:
                lo, hi = box[v]
                d = hi - lo
                if self.isint[v]:
                    d = d if d >= 1 else 0
                elif d < 1e-10:
                    d = 0
                if d > wid:
                    best, wid = v, d
            if best is None:
                return None, None
            lo, hi = box[best]
            if self.isint[best]:
                m = math.floor((lo + hi) / 2)
                parts = [(lo, float(m)), (float(m + 1), hi)]
            else:
                m = (lo + hi) / 2
                parts = [(lo, m), (m, hi)]
            for p in parts:
                q = dict(box)
                q[best] = p
                todo.append((q, depth + 1))
        return ('unsat', None) if not open_box else (None, None)
