"""Rank-one compatibility of two deformations, public interface solver."""
from props.common import mul, tr, cubic24
from props.C14 import V3, PERM, _lam, _spec, _rank1_ok

BOUNDS = ('A = R V diag(s) V^T B with any real principal stretches s in 0.5..2, V and R from lists of rotations (and any V about z), B any real upper '
          'triangular matrix with entries up to 3; interface solver: C as in the rank-one property plus stretches without a unit middle eigenvalue; '
          'eigenpairs delivered in any order')
OUTSIDE = 'middle eigenvalues between 1e-6 and 1e-3 away from 1 (tolerance zone); rounding'

RS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]]


def compat(c, fam, mid, rot):
    """two deformations are compatible iff the middle stretch of A B^-1 is one"""
    m = c.mod('structrans')
    np = c.np
    p, q, r = c.real('p', 0.5, 3), c.real('q', 0.5, 3), c.real('r', 0.5, 3)
    x, y, z = (c.real(k, -2, 2) for k in 'xyz')
    B = np.array([[p, x, y], [0 * p, q, z], [0 * p, 0 * p, r]])
    lo, hi = c.real('lo', 0.5, 1), c.real('hi', 1, 2)
    if mid == 'one':
        s = [lo, 1, hi]
    elif mid == 'any':
        s = [lo, c.real('mid', 0.5, 2), hi]
    elif mid == 'above':
        s = [1, hi, hi + c.real('d', 0.01, 1)]
    else:
        s = [lo, lo * c.real('d', 0.5, 1), 1]
    if mid not in ('one',):
        t = sorted  # the middle one of three
        md = c.real('m', 0.2, 4)
        c.assume(c.Or(*[c.And(md == s[i], s[j] <= md, s[k] >= md) for i, j, k in PERM]))
    else:
        md = 1
    if fam == 'list':
        V = c.pick('v', V3)
    else:
        u = c.real('u', -1, 1)
        w = 1 + u * u
        V = [[(1 - u * u) / w, -2 * u / w, 0], [2 * u / w, (1 - u * u) / w, 0], [0, 0, 1]]
    R = RS[rot]
    S = [[sum(V[i][k] * s[k] * V[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    A = np.array(mul(R, S)).dot(B)
    # G = B^-T A^T A B^-1 = S^2
    lam = [k * k for k in s]
    C = np.array([[sum(V[i][k] * lam[k] * V[j][k] for k in range(3)) for j in range(3)] for i in range(3)])
    perm = c.pick('perm', PERM) if c.symbolic else None
    c.register_spectrum(C, lam, np.array(V), perm)
    got = m.isCompatible(A, B)
    if mid == 'one':
        c.check(got, 'a unit middle stretch is compatible')
        return
    d = md * md - 1
    if got:
        c.check(c.And(d <= 1e-3, d >= -1e-3), 'compatible only with a unit middle stretch')
    else:
        c.check(c.Or(d >= 1e-6, d <= -1e-6), 'incompatible only without a unit middle stretch')


def notarray(c):
    m = c.mod('structrans')
    x = c.real('x', 1, 2)
    L = [[x, 0, 0], [0, x, 0], [0, 0, x]]
    A = c.np.array(L)
    c.check(not m.isCompatible(L, A) and not m.isCompatible(A, L) and not m.isCompatible(None, A), 'only arrays are compared')


def solver(c, case, fam):
    m = c.mod('structrans')
    C, V = _spec(c, _lam(c, case), fam)
    sols = m.AM_Solver(C)
    if not c.check(sols is not None, 'a compatible stretch has solutions'):
        return
    _rank1_ok(c, C, sols)


def nosol(c, case, fam):
    m = c.mod('structrans')
    d = c.real('d', 0.001, 0.8)
    s = c.pick('s', [1, -1])
    md = 1 + s * d
    e, f = c.real('e', 0.01, 0.5), c.real('f', 0.01, 0.5)
    lam = [md * (1 - e), md, md * (1 + f)]
    if case == 'asym':
        x, y = c.real('x', 0.5, 2), c.real('y', 0.01, 1)
        i, j = c.pick('entry', [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)])
        A = [[x, 0 * x, 0 * x], [0 * x, 1 + x, 0 * x], [0 * x, 0 * x, 1 + 0 * x]]
        A[i][j] = A[i][j] + y
        if c.pick('other', [False, True]):
            A[j][i] = A[j][i] - y
        A = c.np.array(A)
        c.check(c.raises(lambda: m.AM_Solver(A)), 'asymmetric input is refused')
        return
    C, V = _spec(c, lam, fam)
    c.check(m.AM_Solver(C) is None, 'no interface without a unit middle eigenvalue')


CASES = [('compat-%s-%s-%d' % (f, k, r), compat, dict(fam=f, mid=k, rot=r), dict(time=60)) for f, k, r in
         (('list', 'one', 0), ('list', 'any', 0), ('list', 'one', 1), ('list', 'any', 2), ('z', 'one', 1), ('z', 'any', 0), ('list', 'above', 1), ('list', 'below', 0))]
CASES += [('notarray', notarray, {}, {})]
CASES += [('solver-%s-%s' % (k, f), solver, dict(case=k, fam=f), dict(time=60)) for k in ('mid', 'low', 'high') for f in ('list', 'x', 'z')]
CASES += [('nosol-%s-%s' % (k, f), nosol, dict(case=k, fam=f), dict(time=60)) for k, f in (('mid', 'list'), ('mid', 'y'), ('asym', 'list'))]
