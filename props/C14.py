"""Rank-one connections to the identity, sorted eigensystems."""
from props.common import mul, tr, eye

BOUNDS = ('C = V diag(l0, 1, l2) V^T with any l0 in 0.2..0.95, 0.97..0.999 or 1 and l2 in 1, 1.001..1.03 or 1.05..4 (not both 1), V from a list of rotations and any rotation '
          'about a coordinate axis, eigenpairs delivered by the eigensolver in any order with any sign; rejected inputs: '
          'asymmetric, indefinite and non-matrix arguments')
OUTSIDE = 'rounding; directions of the eigenvectors not in the families; the documented print-only case C = I'

V3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]], [[0, 0.6, 0.8], [0, -0.8, 0.6], [1, 0, 0]],
      [[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.], [-1 / 3., 2 / 3., 2 / 3.]]]
PERM = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def _spec(c, lam, fam):
    """C with the spectrum lam registered in a symbolic order"""
    np = c.np
    if fam == 'list':
        V = c.pick('v', V3)
    else:
        p = c.real('p', -1, 1)
        w = 1 + p * p
        co, si = (1 - p * p) / w, 2 * p / w
        V = {'x': [[1, 0, 0], [0, co, -si], [0, si, co]], 'y': [[co, 0, si], [0, 1, 0], [-si, 0, co]],
             'z': [[co, -si, 0], [si, co, 0], [0, 0, 1]]}[fam]
    C = np.array([[sum(V[i][k] * lam[k] * V[j][k] for k in range(3)) for j in range(3)] for i in range(3)])
    perm = c.pick('perm', PERM) if c.symbolic else None
    sg = c.pick('sgn', [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (-1, 1, -1)]) if c.symbolic else (1, 1, 1)
    c.register_spectrum(C, lam, np.array([[V[i][j] * sg[j] for j in range(3)] for i in range(3)]), perm)
    return C, V


def _lam(c, case):
    if case == 'mid':
        return [c.real('l0', 0.2, 0.95), 1, c.real('l2', 1.05, 4)]
    if case == 'near':
        return [c.real('l0', 0.97, 0.999), 1, c.real('l2', 1.001, 1.03)]
    if case == 'low':
        return [c.real('l0', 0.2, 0.95), 1, 1]
    return [1, 1, c.real('l2', 1.05, 4)]


def _rank1_ok(c, C, sols, tol=1e-6):
    np = c.np
    c.check(len(sols) == 2, 'two solutions')
    for b, m in sols:
        c.eq(m[0] * m[0] + m[1] * m[1] + m[2] * m[2], 1, 'the normal is a unit vector', tol=1e-7)
        F = [[(1 if i == j else 0) + b[i] * m[j] for j in range(3)] for i in range(3)]
        c.eq(mul(tr(F), F), C, 'C = (I + m b)(I + b m)', tol=tol)


def rank1(c, case, fam):
    m = c.mod('structrans.util.utils')
    C, V = _spec(c, _lam(c, case), fam)
    sols = m.solve_rank1(C)
    if not c.check(sols is not None, 'a compatible stretch has solutions'):
        return
    _rank1_ok(c, C, sols, 1e-7 if case == 'near' else 1e-4)
    if case == 'mid':
        (b1, m1), (b2, m2) = sols
        d = m1[0] * m2[0] + m1[1] * m2[1] + m1[2] * m2[2]
        c.check(d * d <= 0.999, 'the two solutions have different normals')


def am(c, case, fam):
    """the same equation solved for austenite/martensite interfaces, with the rotation"""
    solve = c.private('structrans.marttrans.twin', '_solve_am')
    np = c.np
    lam = _lam(c, case)
    C, V = _spec(c, lam, fam)
    sols = solve(C)
    if not c.check(sols is not None, 'a compatible stretch has solutions'):
        return
    _rank1_ok(c, C, [s[1:] for s in sols], 1e-7 if case == 'near' else 1e-4)
    # R U = I + b m with U = V sqrt(lam) V^T
    U = np.array([[sum(V[i][k] * np.sqrt(lam[k]) * V[j][k] for k in range(3)) for j in range(3)] for i in range(3)])
    for R, b, n in sols:
        F = np.array([[(1 if i == j else 0) + b[i] * n[j] for j in range(3)] for i in range(3)])
        c.eq(np.array(R).dot(U), F, 'R U = I + b m', tol=1e-6 if case == 'near' else 1e-4)


def sorteig(c, fam, mod, fn):
    f = getattr(c.mod(mod), fn)
    lam = [c.real('l%d' % i, 0.2, 4) for i in range(3)]
    for i in range(3):
        for j in range(i):
            d = lam[i] - lam[j]
            c.assume(c.Or(d >= 0.01, d <= -0.01))
    C, V = _spec(c, lam, fam)
    e, v = f(C)
    c.check(c.And(e[0] <= e[1], e[1] <= e[2]), 'the eigenvalues are in increasing order')
    for i in range(3):
        Cv = [sum(C[j][k] * v[i][k] for k in range(3)) for j in range(3)]
        c.eq(Cv, [e[i] * v[i][k] for k in range(3)], 'the i-th row is the eigenvector of the i-th eigenvalue', tol=1e-7)
        c.eq(sum(v[i][k] * v[i][k] for k in range(3)), 1, 'the eigenvectors are normalised', tol=1e-7)


def refuse(c, kind):
    m = c.mod('structrans.util.utils')
    np = c.np
    x, y = c.real('x', 0.5, 4), c.real('y', 0.01, 4)
    if kind == 'asym':
        C = np.array([[x, y, 0], [0, x, 0], [0, 0, 1 + x]])
    elif kind == 'neg':
        C = np.array([[x, 0, 0], [0, -y, 0], [0, 0, 1 + 0 * x]])
    elif kind == 'neg2':
        C = np.array([[-x, 0, 0], [0, -y, 0], [0, 0, 1 + 0 * x]])
    elif kind == 'indef':
        C = np.array([[x, x + y, 0], [x + y, x, 0], [0, 0, 1 + 0 * x]])
    elif kind == 'singular':
        C = np.array([[x, x, 0], [x, x, 0], [0, 0, 1 + 0 * x]])
    elif kind == '2d':
        C = np.array([[x, 0], [0, y]])
    elif kind == 'list':
        C = [[x, 0, 0], [0, y, 0], [0, 0, 1]]
    c.check(c.raises(lambda: m.solve_rank1(C), TypeError), 'not a positive definite symmetric matrix: refused')
    c.check(not m.pos_def_sym(C), 'not a positive definite symmetric matrix')


def posdef(c):
    """every symmetric positive definite matrix is recognised and no other symmetric matrix"""
    m = c.mod('structrans.util.utils')
    np = c.np
    a, b, d, e, f, g = [c.real(k, -3, 3) for k in 'abdefg']
    U = np.array([[a, b, d], [b, e, f], [d, f, g]])
    r = m.pos_def_sym(U)
    m2 = a * e - b * b
    m3 = a * (e * g - f * f) - b * (b * g - f * d) + d * (b * f - e * d)
    if r:
        c.check(c.And(a > -1e-9, m2 > -1e-9, m3 > -1e-9), 'accepted: positive definite')
    else:
        c.check(c.Not(c.And(a > 1e-9, m2 > 1e-9, m3 > 1e-9)), 'rejected: not positive definite')


CASES = [('rank1-%s-%s' % (k, f), rank1, dict(case=k, fam=f), dict(time=60)) for k in ('mid', 'low', 'high') for f in ('list', 'x', 'y', 'z')]
CASES += [('rank1-near-%s' % f, rank1, dict(case='near', fam=f), dict(time=60)) for f in ('list', 'z')]
CASES += [('am-%s-%s' % (k, f), am, dict(case=k, fam=f), dict(time=60)) for k in ('mid', 'low', 'high', 'near') for f in ('list', 'z')]
CASES += [('sort-%s-%s' % (fn, f), sorteig, dict(fam=f, mod=mod, fn=fn), dict(time=60)) for mod, fn in
          (('structrans.util.utils', 'sort_eig'), ('structrans.mat_math', 'eigSort')) for f in ('list', 'x')]
CASES += [('refuse-' + k, refuse, dict(kind=k), {}) for k in ('asym', 'neg', 'neg2', 'indef', 'singular', '2d', 'list')]
CASES += [('posdef', posdef, {}, {})]
