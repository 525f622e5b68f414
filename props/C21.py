"""Volume fractions and habit planes of twins that are compatible with the reference."""
from fractions import Fraction
from props.common import mul, tr, det
from props.C20 import AXES, variant, stretch, dot, generic, spectrum, unit, PERM

BOUNDS = ('compound twins of tetragonal stretches with any entries in 0.85..1.2; Type I/II twins of eight families of stretches without symmetry, any size '
          '(middle eigenvalue from below to above 1); habit planes of tetragonal twins with a real entry in 0.9..0.96 or 1.02..1.07 '
          'and of five Type I/II families of any size in the boxes, with the eigen-solver as an arbitrary function of the tensor')
OUTSIDE = ('stretches within 1e-4 of the border where a volume fraction appears, vanishes or reaches 1/2 (Type I/II families); other stretches; rounding')


def _lam(U, a, n, f):
    F = [[U[i][j] + f * a[i] * n[j] for j in range(3)] for i in range(3)]
    return F, mul(tr(F), F)


def _g(C):
    return det([[C[i][j] - (1 if i == j else 0) for j in range(3)] for i in range(3)])


def fractions(c, tp, U):
    fs = tp.volumefrac()
    sols = tp.twinparam()
    if not c.check(len(fs) == 2, 'one answer for each solution'):
        return None
    for f, (Q, a, n) in zip(fs, sols):
        if f is not None:
            c.check(c.And(f >= 0, f <= 1), 'a volume fraction is between 0 and 1')
            F, C = _lam(U, a, n, f)
            c.eq(_g(C), 0, '1 is an eigenvalue of the average deformation', tol=1e-6)
            c.check(C[0][0] + C[1][1] + C[2][2] - det(C) - 2 >= -1e-4, '1 is the eigenvalue in the middle')
        else:
            g = c.real('g', 0, 1)
            c.assume(c.Or(g >= 0.502, g <= 0.498))
            F, C = _lam(U, a, n, g)
            c.check(c.Not(c.And(_g(C) == 0, C[0][0] + C[1][1] + C[2][2] - det(C) - 2 >= 1e-4)), 'no volume fraction is missed')
    has = [f is not None for f in fs]
    c.check(tp.iscompatible('I') == has[0] and tp.iscompatible('II') == has[1] and tp.iscompatible() == any(has) and tp.iscompatible('C') == any(has),
            'compatible exactly if there is a volume fraction')
    c.check(c.raises(lambda: tp.iscompatible('III'), ValueError) and c.raises(lambda: tp.habitplanes(1), ValueError), 'unknown twin types are refused')
    if not any(has):
        c.check(c.raises(tp.habitplanes, AttributeError), 'no habit planes of an incompatible twin')
    # det(C_f - I) = g0 + alpha f (1 - f)
    g0 = _g(mul(U, U))
    for x, (Q, a, n) in zip(tp.direct_cof(), sols):
        F, C = _lam(U, a, n, Fraction(1, 2) if c.symbolic else 0.5)
        c.eq(x, -2 * (_g(C) - g0), 'the cofactor condition', tol=1e-6)
    return fs, sols


def tetr(c, ax, box):
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    a, b = c.real('a', *box[0]), c.real('b', *box[1])
    c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
    z = 0 * a
    U = [[a, z, z], [z, a, z], [z, z, b]]
    e = AXES[ax]
    V = variant(U, e)
    spectrum(c, U, V, e)
    tp = t.TwinPair(np.array(U), np.array(V))
    fractions(c, tp, U)


def gen(c, frame, lo, hi, turn='I'):
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    U, V, e = generic(c, frame, '', turn, 1, 1)
    s = c.real('s', lo, hi)
    U = [[s * x for x in r] for r in U]
    V = [[s * x for x in r] for r in V]
    tp = t.TwinPair(np.array(U), np.array(V))
    # not at the borders where a volume fraction appears or vanishes
    g0 = _g(mul(U, U))
    c.assume(c.Or(g0 >= 1e-4, g0 <= -1e-4))
    for Q, a, n in tp.twinparam():
        F, C = _lam(U, a, n, 0.5)
        g1 = _g(C)
        c.assume(c.And(c.Or(g1 >= 1e-4, g1 <= -1e-4), c.Or(g1 - g0 >= 1e-4, g1 - g0 <= -1e-4)))
    fractions(c, tp, U)


def habit(c, ax, box, free):
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    a = c.real('a', *box[0]) if 'a' in free else Fraction(sum(box[0])) / 2
    b = c.real('b', *box[1]) if 'b' in free else Fraction(sum(box[1])) / 2
    z = 0.0
    U = [[a, z, z], [z, a, z], [z, z, b]]
    e = AXES[ax]
    V = variant(U, e)
    if not c.symbolic:
        U, V = [[[float(x) for x in y] for y in W] for W in (U, V)]
    spectrum(c, U, V, e)
    tp = t.TwinPair(np.array(U), np.array(V))
    fs, sols = tp.volumefrac(), tp.twinparam()
    k = 0 if ax in (7, 8) else 1
    i, j = [x for x in range(3) if x != k]
    want = []
    for f, (Q, av, n) in zip(fs, sols):
        if f is None:
            continue
        for g in (f, 1 - f):
            F, C = _lam(U, av, n, g)
            want.append(C)
            if c.symbolic:
                # in the plane of the twin the eigenvalues are 1 and (a b)^2
                x, y = unit(c, [C[i][j], 1 - C[i][i]])
                W = [[0.0] * 3 for _ in range(3)]
                W[k][0] = 1.0
                W[i][1], W[j][1] = x, y
                W[i][2], W[j][2] = -y, x
                c.register_spectrum(np.array(C), [a * a, 1, a * a * b * b], np.array(W), PERM[ax % 6])
    if not want:
        c.check(not tp.iscompatible() and c.raises(tp.habitplanes, AttributeError), 'no habit planes of an incompatible twin')
        return
    hps = tp.habitplanes()
    if not c.check(len(hps) == 2 * len(want), 'two habit planes for each volume fraction, for f and 1 - f'):
        return
    for q, C in enumerate(want):
        ms = []
        for R, b, m in hps[2 * q:2 * q + 2]:
            c.eq(dot(m, m), 1, 'the habit plane normal is a unit vector', tol=1e-7)
            G = [[(1 if x == y else 0) + b[x] * m[y] for y in range(3)] for x in range(3)]
            c.eq(mul(tr(G), G), C, 'the average deformation is rank-one connected to the identity', tol=1e-6)
            c.eq(mul(R, tr(R)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'a rotation', tol=1e-6)
            ms.append(m)
        d = dot(ms[0], ms[1])
        c.check(d * d <= 1 - 1e-6, 'two different planes')


def ghabit(c, frame, lo, hi, turn, both=True):
    """Type I/II twins: the habit planes belong to the right average deformations. The eigen-solver is an arbitrary function of the tensor:
    the q-th tensor wanted gets the eigenvalues l_q, 1, h_q along the coordinate axes, so a solution tells which tensor it was computed for"""
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    U, V, e = generic(c, frame, '', turn, 1, 1)
    s = c.real('s', lo, hi)
    U = [[s * x for x in r] for r in U]
    V = [[s * x for x in r] for r in V]
    tp = t.TwinPair(np.array(U), np.array(V))
    fs, sols = tp.volumefrac(), tp.twinparam()
    want = []
    for f, (Q, a, n) in zip(fs, sols):
        if f is not None:
            want += [_lam(U, a, n, g)[1] for g in (f, 1 - f)]
    if not c.check(len(want) == (4 if both else 2), 'the solutions have volume fractions'):
        return
    show = want
    if c.symbolic:
        show = [[[c.real('l%d' % q, 0.8, 0.95), 0, 0], [0, 1, 0], [0, 0, c.real('h%d' % q, 1.05, 1.2)]] for q in range(len(want))]
        show.append([[0.5, 0, 0], [0, 1, 0], [0, 0, 2]])
        orig = {k: getattr(c.la, k) for k in ('eig', 'eigh')}

        def same(A, B):
            return all(isinstance(x, (int, float, Fraction)) and x == 0 for x in [A[i][j] - B[i][j] for i in range(3) for j in range(3)])

        def eig(k):
            def f(C, *x, **kw):
                rows = [[C[i][j] for j in range(3)] for i in range(3)]
                q = [q for q in range(len(want)) if same(rows, want[q])] or [q for q in range(len(want)) if bool(c.close(rows, want[q], 1e-7))]
                q = q[0] if q else len(want)
                return np.array([show[q][i][i] for i in range(3)]), np.array([[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)])
            return f
        for k in orig:
            c.patch(c.la, k, eig(k))
    hps = tp.habitplanes()
    if not c.check(len(hps) == 2 * len(want), 'two habit planes for each volume fraction, for f and 1 - f'):
        return
    for q in range(len(want)):
        ms = []
        for R, b, m in hps[2 * q:2 * q + 2]:
            c.eq(dot(m, m), 1, 'the habit plane normal is a unit vector', tol=1e-7)
            G = [[(1 if x == y else 0) + b[x] * m[y] for y in range(3)] for x in range(3)]
            c.eq(mul(tr(G), G), show[q], 'the average deformation is rank-one connected to the identity', tol=1e-6)
            c.eq(mul(R, tr(R)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'a rotation', tol=1e-6)
            ms.append(m)
        d = dot(ms[0], ms[1])
        c.check(d * d <= 1 - 1e-6, 'two different planes')


D = Fraction
LH = (D('0.9'), D('0.96')), (D('1.13'), D('1.14'))
HL = (D('1.02'), D('1.07')), (D('0.91'), D('0.92'))
FR = [('A', 'I'), ('B', 'z'), ('C', 'y'), ('D', 'c'), ('E', 'I'), ('F', 'f'), ('G', 'd'), ('H', 'e')]
SC = {'A': (0.62, 0.99), 'B': (0.56, 0.99), 'C': (0.71, 0.99), 'D': (0.55, 0.99), 'E': (0.66, 0.99), 'F': (0.8, 0.99), 'G': (0.68, 0.99), 'H': (0.8, 0.99)}
CASES = [('tetr-%d-%s' % (k, n), tetr, dict(ax=k, box=b), dict(time=100)) for k in (5, 8) for n, b in
         (('lh', ((0.85, 0.99), (1.01, 1.2))), ('hl', ((1.01, 1.2), (0.85, 0.99))), ('ll', ((0.85, 0.99), (0.85, 0.99))), ('hh', ((1.01, 1.2), (1.01, 1.2))))]
CASES += [('gen-%s' % f, gen, dict(frame=f, lo=0.55, hi=1.25, turn=k), dict(time=150)) for f, k in FR]
CASES += [('habit-%d-%s' % (k, n), habit, dict(ax=k, box=b, free='a'), dict(time=200)) for k, n, b in
          ((8, 'lh', LH), (7, 'lh', LH), (5, 'hl', HL), (6, 'hl', HL), (5, 'lh', LH), (8, 'hl', HL))]
CASES += [('ghabit-%s%s' % (f, '' if b else '1'), ghabit, dict(frame=f, lo=lo, hi=hi, turn=k, both=b), dict(time=150)) for f, k, lo, hi, b in
          (('A', 'I', 0.945, 0.965, True), ('B', 'z', 1.07, 1.11, True), ('E', 'd', 1.125, 1.155, True), ('M', 'y', 1.145, 1.175, True), ('A', 'c', 0.985, 1.01, False),
           ('D', 'I', 0.97, 0.99, False))]
