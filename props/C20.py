"""Twins: two variants related by a two-fold rotation satisfy the twinning equation with the reported elements."""
from fractions import Fraction
import numpy
from props.common import mul, tr, det, cubic24

BOUNDS = ('variants of tetragonal (entries 0.85..1.2, at least 0.03 apart), face-diagonal orthorhombic and trigonal-parent stretches and of ten families of '
          'stretches without symmetry (two close to compound twins) about all nine two-fold axes of the cube (one or two real parameters each, eigen-solver order and signs varied); '
          'orthorhombic stretches permuted cyclically (not twinnable); twin systems of tetragonal, orthorhombic and monoclinic stretches with cubic, tetragonal and '
          'hexagonal parents')
OUTSIDE = ('pairs that are not variants of each other; stretches whose relative stretch has a middle eigenvalue between 1e-12 and 5e-3 away from 1 by accident '
           '(tolerance zone); stretches outside of the boxes of the families')

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (0, 1, 1), (0, 1, -1)]
PERM = [(0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1), (1, 0, 2), (2, 0, 1)]
SGN = [(1, 1, 1), (-1, 1, -1), (1, -1, 1), (-1, -1, 1)]


def unit(c, v):
    s = sum(x * x for x in v)
    return [x / c.np.sqrt(s) for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mv(A, v):
    return [dot(r, v) for r in A]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def stretch(c, fam):
    np = c.np
    z = 0.0
    if fam == 'tetr':
        a, b = c.real('a', 0.85, 1.2), c.real('b', 0.85, 1.2)
        c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
        return [[a, z, z], [z, a, z], [z, z, b]]
    if fam == 'face1':
        d = c.real('d', 0.02, 0.1)
        return [[1.05, d, z], [d, 1.05, z], [z, z, 0.9]]
    if fam == 'mono1':
        d = c.real('d', 0.02, 0.1)
        return [[1.1, d, z], [d, 1.0, z], [z, z, 0.9]]


def variant(U, e):
    """R U R with the two-fold rotation about e (e.e = n)"""
    n = dot(e, e)
    R = [[2.0 * e[i] * e[j] / n - (1 if i == j else 0) for j in range(3)] for i in range(3)]
    return mul(mul(R, U), R)


def spectrum(c, U, V, e, nperm=2, nsgn=2):
    """U^-1 V^2 U^-1 = (I + m a)(I + a m) is a simple shear: eigenvalues 1/t^2, 1, t^2"""
    if not c.symbolic:
        return
    np = c.np
    Ui = c.la.inv(np.array(U))
    Ui = [[Ui[i][j] for j in range(3)] for i in range(3)]
    h = unit(c, e)
    Ue, m = mv(U, h), mv(Ui, h)
    mm = dot(m, m)
    a = [2 * (m[i] / mm - Ue[i]) for i in range(3)]
    X = dot(Ue, Ue) * mm
    t = np.sqrt(X) + np.sqrt(X - 1)
    ti = np.sqrt(X) - np.sqrt(X - 1)
    ah, mh = unit(c, a), unit(c, m)
    w = np.sqrt(1 + t * t)
    hi = [(ah[i] + t * mh[i]) / w for i in range(3)]
    lo = [(t * ah[i] - mh[i]) / w for i in range(3)]
    mid = cross(ah, mh)
    C = np.array(mul(mul(Ui, mul(V, V)), Ui))
    perm = c.pick('perm', PERM[:nperm])
    s = c.pick('sgn', SGN[:nsgn])
    c.register_spectrum(C, [ti * ti, 1, t * t], np.array([[lo[i] * s[0], mid[i] * s[1], hi[i] * s[2]] for i in range(3)]), perm)


def same_axes(c, ax, want):
    """the unit vectors ax are the directions want, up to sign and order (formula)"""
    want = [unit(c, w) for w in want]

    def par(x, y):
        return c.close(cross(x, y), [0, 0, 0], 1e-5)
    return c.And(*[c.Or(*[par(x, w) for x in ax]) for w in want])


def elements(c, fam, ax, ax2):
    """a pair related by the two-fold rotations about two orthogonal axes: compound"""
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    U = stretch(c, fam)
    e = AXES[ax]
    V = variant(U, e)
    spectrum(c, U, V, e)
    tp = t.TwinPair(np.array(U), np.array(V))
    if not c.check(tp.istwinnable(), 'variants related by a two-fold rotation form twins'):
        return
    got = tp.ax()
    if not c.check(len(got) == 2 and tp.iscompound() and not tp.istypeI() and not tp.istypeII(), 'a compound pair has two axes'):
        return
    for x in got:
        c.eq(dot(x, x), 1, 'the axis is a unit vector', tol=1e-7)
    c.check(same_axes(c, got, [e, AXES[ax2]]), 'the axes of the two two-fold rotations that relate the variants')
    c.check(c.raises(tp.XI, AttributeError) and c.raises(tp.XII, AttributeError), 'X_I and X_II are not defined for compound twins')
    c.check(tp.isconventional(), 'the two-fold rotation belongs to the cubic group')
    _solutions(c, tp, U, V)


def not_twinnable(c, kind):
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    u, v, w = c.real('u', 0.8, 0.95), c.real('v', 0.97, 1.03), c.real('w', 1.05, 1.25)
    z = 0 * u
    U = np.array([[u, z, z], [z, v, z], [z, z, w]])
    if kind == 'same':
        V = np.array([[u, z, z], [z, v, z], [z, z, w]])
    elif kind == 'cyc':
        V = np.array([[v, z, z], [z, w, z], [z, z, u]])
    else:
        V = np.array([[w, z, z], [z, u, z], [z, z, v]])
    tp = t.TwinPair(U, V)
    c.check(not tp.istwinnable(), 'no rank-one connection')
    c.check(not tp.isconventional(), 'not twinnable, so not conventional')
    for f in (tp.ax, tp.twinparam, tp.iscompound, tp.XI, tp.XII, tp.volumefrac):
        c.check(c.raises(f, AttributeError), 'no twin elements of a pair that is not twinnable')


def idx(c, A):
    return [[int(c.value(y)) for y in x] for x in A]


def _pairs(c, ts, Us, comp, conv, twin=None):
    """comp, conv: functions of the pair, comp None: not asked"""
    n = len(Us)
    allp = [[i, j] for i in range(n) for j in range(i + 1, n)]
    want = [p for p in allp if twin is None or twin(*p)]
    got = idx(c, ts.TwinTable())
    if not c.check(got == want, 'the twin table lists the twinnable pairs of variants'):
        return
    prs = ts.getTwinpairs()
    c.check(len(prs) == len(want), 'one pair for each entry of the table')
    for (i, j), tp in zip(want, prs):
        c.eq(tp.Ui(), Us[i], 'pairs are listed in the order of the table')
        c.eq(tp.Uj(), Us[j], 'pairs are listed in the order of the table')
    for f, w, msg in ((ts.getCompound, [k for k, p in enumerate(want) if comp and comp(*p)], 'compound'),
                      (ts.getTypeI, [k for k, p in enumerate(want) if comp and not comp(*p)], 'Type I'),
                      (ts.getTypeII, [k for k, p in enumerate(want) if comp and not comp(*p)], 'Type II'),
                      (ts.getConventional, [k for k, p in enumerate(want) if conv(*p)], 'conventional')):
        if comp is None and f != ts.getConventional:
            continue
        c.check([int(c.value(x)) for x in f()] == w, 'indices of the %s pairs' % msg)
    return prs


def system_tetr(c):
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    a, b = c.real('a', 0.85, 1.2), c.real('b', 0.85, 1.2)
    c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
    z = 0 * a
    Us = [np.array([[x, z, z], [z, y, z], [z, z, w]]) for x, y, w in ((b, a, a), (a, b, a), (a, a, b))]
    form = c.pick('form', ['martensite', 'list', 'group', 'none', 'small', 'sub'])
    if form == 'martensite':
        M = m.Martensite().setU(Us[0])
        ts = t.TwinSystem(M)
        vs = M.getvariants()
        Us = [vs[i] for i in range(3)]
    elif form == 'list':
        ts = t.TwinSystem(Us)
    else:
        G = {'group': 3, 'none': 14, 'small': 6, 'sub': 8}[form]
        G = m.BravaisLattice(G, {3: [1.0], 14: [1.0, 1.2, 1.4, 80, 75, 95], 6: [1.0, 1.25], 8: [1.0, 1.25, 1.5]}[G]).Laue_group()
        ts = t.TwinSystem(Us, G)
        c.check(ts.Laue().order() == G.order(), 'the group given')
    c.eq(ts.Ulist(), Us, 'the variants')
    conv = {'none': lambda i, j: False, 'sub': lambda i, j: False, 'small': lambda i, j: (i, j) == (0, 1)}.get(form, lambda i, j: True)
    prs = _pairs(c, ts, Us, lambda i, j: True, conv)
    if prs is None:
        return
    # the answer for one group does not depend on the groups asked for before
    for tp in prs:
        c.check(tp.isconventional(), 'conventional in the cubic group')
        c.check(not tp.isconventional(m.BravaisLattice(14, [1.0, 1.2, 1.4, 80, 75, 95]).Laue_group()), 'no two-fold rotation in the trivial group')
        c.check(tp.isconventional(), 'conventional in the cubic group')


def system_orth(c):
    """only the exchange of two axes gives twins"""
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    u, v, w = c.real('u', 0.8, 0.95), c.real('v', 0.97, 1.03), c.real('w', 1.05, 1.25)
    z = 0 * u
    ords = [(u, v, w), (u, w, v), (v, u, w), (v, w, u), (w, u, v), (w, v, u)]
    par = [0, 1, 1, 0, 0, 1]
    Us = [np.array([[x, z, z], [z, y, z], [z, z, q]]) for x, y, q in ords]
    if c.pick('form', ['list', 'tetragonal']) == 'list':
        ts = t.TwinSystem(Us)
        _pairs(c, ts, Us, lambda i, j: True, lambda i, j: True, lambda i, j: par[i] != par[j])
    else:
        ts = t.TwinSystem(Us, m.BravaisLattice(7, [1.0, 1.25]).Laue_group())
        _pairs(c, ts, Us, lambda i, j: True, lambda i, j: (i, j) in ((0, 2), (1, 4), (3, 5)), lambda i, j: par[i] != par[j])


def system_mono(c):
    """in the plane: two-fold related and others"""
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    d = c.real('d', 0.03, 0.12)
    u, v, w = 1.1, 0.98, 0.9
    z = 0 * d
    Us = [np.array([[x + z, s * d, z], [s * d, y + z, z], [z, z, w + z]]) for x, y, s in ((u, v, 1), (u, v, -1), (v, u, 1), (v, u, -1))]
    # (0,1), (2,3): axis x; (0,2), (1,3): axis [110]; (0,3), (1,2): four-fold rotation
    ts = t.TwinSystem(Us) if c.pick('form', ['list', 'group']) == 'list' else t.TwinSystem(Us, m.BravaisLattice(2, [1.0]).Laue_group())
    _pairs(c, ts, Us, lambda i, j: True, lambda i, j: i + j != 3)


def system_hex(c):
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    s = c.real('s', 0.9, 1.05)
    u, v, z = 0.9 * s, 1.05 * s, 0 * s
    M = m.Martensite().setLaue(4).setU(np.array([[u, z, z], [z, v, z], [z, z, 1.2 + z]]))
    ts = t.TwinSystem(M)
    c.check(ts.Laue().order() == 12, 'the parent group of the transformation')
    vs = M.getvariants()
    if not c.check(len(vs) == 3, 'three variants'):
        return
    Us = [vs[i] for i in range(3)]
    h = np.sqrt(3)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        # a two-fold axis in the plane that relates the variants
        for e in ([h, 1, 0], [h, -1, 0], [0, 1, 0]):
            if bool(c.close(variant(Us[i], e), Us[j], 1e-6)):
                spectrum(c, Us[i], Us[j], e)
    prs = _pairs(c, ts, Us, lambda i, j: True, lambda i, j: True)
    if prs is None:
        return
    for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
        _solutions(c, prs[k], Us[i], Us[j])


def system_many(c, U0, n, form):
    """all pairs of many variants; a common factor cancels in the relative stretches"""
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    s = c.real('s', 0.9, 1.1)
    M = m.Martensite().setU(np.array([[x * s for x in r] for r in U0]))
    vs = M.getvariants()
    if not c.check(len(vs) == n, 'the number of variants'):
        return
    Us = [vs[i] for i in range(n)]
    if form == 'reversed':
        Us = Us[::-1]
    cub = cubic24()

    def near(A, B, tol=1e-7):
        return max(abs(A[a][b] - B[a][b]) for a in range(3) for b in range(3)) < tol
    # which conjugates of the first stretch the variants are
    place = [[Q for Q in cub if c.close(U, [[x * s for x in r] for r in conj(Q, U0)], 1e-9) is True] for U in Us]
    if not c.check(all(place), 'the variants are related by the parent group'):
        return
    V = numpy.linalg.eigh(numpy.array(U0))[1]
    halves = [[[2.0 * v[a] * v[b] - (a == b) for b in range(3)] for a in range(3)] for v in V.T.tolist()]
    memo = {}

    def rel(i, j):
        """two-fold rotations that relate two variants, and how many of them belong to the group"""
        if (i, j) not in memo:
            # all rotations Q with Q U_i Q^T = U_j
            Qs = [mul(mul(place[j][0], H), tr(place[i][0])) for H in [[[1, 0, 0], [0, 1, 0], [0, 0, 1]]] + halves]
            Qs = [Q for Q in Qs if abs(Q[0][0] + Q[1][1] + Q[2][2] + 1) < 1e-7]
            memo[i, j] = len(Qs), sum(1 for Q in Qs if any(near(Q, P) for P in cub))
        return memo[i, j]
    ts = t.TwinSystem(M) if form == 'martensite' else t.TwinSystem(Us)
    _pairs(c, ts, Us, None, lambda i, j: rel(i, j)[1] > 0, lambda i, j: rel(i, j)[0] > 0)


def flags(c, n, some):
    """the lists of a system for any classification of the pairs"""
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    c.private('structrans.marttrans.twin', 'TwinPair')
    x = c.real('x', 0.9, 1.1)
    Us = [np.array([[1.0 + 0.01 * k + 0 * x, 0, 0], [0, x, 0], [0, 0, 1.0]]) for k in range(n)]
    twin, comp, conv = {}, {}, {}
    for i in range(n):
        for j in range(i + 1, n):
            sym = (i, j) in some
            twin[i, j] = bool(c.choice('t%d%d' % (i, j), 2)) if sym else (i + j) % 3 != 0
            comp[i, j] = bool(c.choice('c%d%d' % (i, j), 2)) if sym and twin[i, j] else (i * j) % 2 == 0
            conv[i, j] = bool(c.choice('v%d%d' % (i, j), 2)) if sym and twin[i, j] else i % 2 == 0

    class Pair(object):
        def __init__(self, A, B, *a, **k):
            self.A, self.B = A, B
            self.k = tuple([i for i in range(n) if c.close(A, Us[i], 1e-9) is True][0] if q == 0 else
                           [i for i in range(n) if c.close(B, Us[i], 1e-9) is True][0] for q in (0, 1))
            if self.k[0] > self.k[1]:
                c.fail('pairs are formed with the smaller index first')

        def Ui(self):
            return self.A

        def Uj(self):
            return self.B

        def istwinnable(self):
            return twin[self.k]

        def iscompound(self):
            return twin[self.k] and comp[self.k]

        def istypeI(self):
            return twin[self.k] and not comp[self.k]

        istypeII = istypeI

        def isconventional(self, *g, **k):
            return twin[self.k] and conv[self.k]

        def ax(self):
            return [np.array([1.0, 0, 0])] * (2 if comp[self.k] else 1)
    c.patch(t, 'TwinPair', Pair)
    ts = t.TwinSystem(Us)
    first = c.pick('first', ['table', 'compound', 'type', 'conventional', 'pairs'])
    # whichever question is asked first
    {'table': ts.TwinTable, 'compound': ts.getCompound, 'type': ts.getTypeII, 'conventional': ts.getConventional, 'pairs': ts.getTwinpairs}[first]()
    _pairs(c, ts, Us, lambda i, j: comp[i, j], lambda i, j: conv[i, j], lambda i, j: twin[i, j])


def quat(w, x, y, z):
    n = w * w + x * x + y * y + z * z
    R = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return R, n


FRAMES = {'A': ((88, 120, 9, -6), 0.514, 1.035, 0.025), 'B': ((83, -120, -15, -9), 0.558, 0.89, 0.067),
          'C': ((120, 67, 3, -6), 0.476, 1.0785, -0.0574), 'D': ((120, 24, 3, -9), 0.512, 1.048, 0.159),
          # close to compound twins
          'N': ((76, -93, -11, -9), 0.55, 1.074, 0.04), 'M': ((110, 61, 5, -9), 0.51, 0.937, 0.11)}


FRAMES110 = {'E': ((40, -19, -9, 14), 0.477, 1.1434, 1.0694), 'F': ((28, -40, -19, 10), 0.476, 1.4085, 0.9679),
             'G': ((40, -10, -5, 14), 0.478, 1.4282, 1.024), 'H': ((16, -40, -18, 6), 0.452, 1.3205, 0.8919)}
# rotations of the cube that take [100] or [110] to the other two-fold axes
TURN = {'I': [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'z': [[0, -1, 0], [1, 0, 0], [0, 0, 1]], 'y': [[0, 0, 1], [0, 1, 0], [-1, 0, 0]],
        'c': [[0, 0, 1], [1, 0, 0], [0, 1, 0]], 'd': [[0, 1, 0], [0, 0, 1], [1, 0, 0]], 'e': [[0, 0, -1], [-1, 0, 0], [0, 1, 0]],
        'f': [[0, -1, 0], [0, 0, 1], [-1, 0, 0]]}


def generic110(c, frame, free):
    """the same for the two-fold rotation about [110]: U e = rho f1, U^-1 e = 2 (f1 + tau f2) / rho"""
    q4, w0, rho0, s0 = FRAMES110[frame]
    K = Fraction
    w = K(w0).limit_denominator(1000)
    rho = c.real('rho', rho0 - 0.05, rho0 + 0.05) if 'h' in free else K(rho0).limit_denominator(1000)
    s = c.real('s', s0 - 0.02, s0 + 0.02) if 'r' in free else K(s0).limit_denominator(1000)
    R, n = quat(*q4)
    f1, f2, f3 = [[K(R[i][k], n) for i in range(3)] for k in range(3)]
    t = 2 * w / (1 - w * w)
    sw = (1 + w * w) / (1 - w * w)
    tau = (t - 1 / t) / 2
    st = (t + 1 / t) / 2
    e = [1, 1, 0]
    # k is orthogonal to e and m, U k is determined up to k.U k = s k.k; m = mu / rho
    mu = [2 * (x + tau * y) for x, y in zip(f1, f2)]
    k = cross(e, mu)
    kk = dot(k, k)
    es, ms = [x / kk for x in cross(mu, k)], [x / kk for x in cross(k, e)]
    ks = [x / kk for x in k]
    # in the base e, mu, k
    S = [[rho * dot(e, f1), 2 * rho, rho * dot(k, f1)], [2 * rho, rho * dot(mu, e), 0], [rho * dot(k, f1), 0, s * kk]]
    B = [es, ms, ks]
    U = [[sum(S[a][b] * B[a][i] * B[b][j] for a in range(3) for b in range(3)) for j in range(3)] for i in range(3)]
    Q = [[0, 1, 0], [1, 0, 0], [0, 0, -1]]
    V = mul(mul(Q, U), Q)
    if not c.symbolic:
        U, V = [[[float(x) for x in a] for a in W] for W in (U, V)]
    else:
        mh = [(x + tau * y) / st for x, y in zip(f1, f2)]
        ah = [(y - tau * x) / st for x, y in zip(f1, f2)]
        return U, V, e, mh, ah, f3, t, sw, [x / rho for x in mu]
    return U, V, e, None, None, None, t, sw, None


def conj(Q, U):
    return mul(mul(Q, U), tr(Q))


def generic(c, frame, free, turn, nperm=2, nsgn=2):
    if frame in FRAMES:
        U, V, e, mh, ah, f3, t, sw, m = generic100(c, frame, free)
    else:
        U, V, e, mh, ah, f3, t, sw, m = generic110(c, frame, free)
    Q = TURN[turn]
    U, V, e = conj(Q, U), conj(Q, V), mv(Q, e)
    if c.symbolic:
        mh, ah, f3, m = mv(Q, mh), mv(Q, ah), mv(Q, f3), mv(Q, m)
        p = mv(U, e)
        ee = dot(e, e)
        # relative stretch (I + m a)(I + a m) in terms of the unit vector e / |e|
        mm = dot(m, m)
        a = [2 * (m[i] / mm - p[i] / ee) for i in range(3)]
        C = [[(1 if i == j else 0) + m[i] * a[j] + a[i] * m[j] + dot(a, a) * m[i] * m[j] for j in range(3)] for i in range(3)]
        hi = [(ah[i] + t * mh[i]) / sw for i in range(3)]
        lo = [(t * ah[i] - mh[i]) / sw for i in range(3)]
        perm = c.pick('perm', PERM[:nperm])
        sg = c.pick('sgn', SGN[:nsgn])
        c.register_spectrum(c.np.array(C), [1 / (t * t), 1, t * t],
                            c.np.array([[lo[i] * sg[0], f3[i] * sg[1], hi[i] * sg[2]] for i in range(3)]), perm)
    return U, V, e


def generic100(c, frame, free):
    """a stretch without symmetry and its two-fold partner about [100], with rational spectrum of the relative stretch:
    U e = rho f1, U^-1 e = (f1 + tau f2) / rho for orthonormal f1, f2, tau = (t - 1/t) / 2"""
    q4, w0, rho0, r0 = FRAMES[frame]
    K = Fraction
    w = c.real('w', w0 - 0.01, w0 + 0.01) if 'w' in free else K(w0).limit_denominator(1000)
    rho = c.real('rho', rho0 - 0.05, rho0 + 0.05) if 'h' in free else K(rho0).limit_denominator(1000)
    r = c.real('r', r0 - 0.02, r0 + 0.02) if 'r' in free else K(r0).limit_denominator(1000)
    R, n = quat(*q4)
    f1, f2, f3 = [[K(R[i][k], n) for i in range(3)] for k in range(3)]
    t = 2 * w / (1 - w * w)
    sw = (1 + w * w) / (1 - w * w)
    tau = (t - 1 / t) / 2
    st = (t + 1 / t) / 2
    p = [rho * x for x in f1]
    m = [(x + tau * y) / rho for x, y in zip(f1, f2)]
    q = -(p[1] * m[0] + r * m[2]) / m[1]
    s = -(p[2] * m[0] + r * m[1]) / m[2]
    U = [[p[0], p[1], p[2]], [p[1], q, r], [p[2], r, s]]
    e = [1, 0, 0]
    V = [[p[0], -p[1], -p[2]], [-p[1], q, r], [-p[2], r, s]]
    if not c.symbolic:
        U, V = [[[float(x) for x in a] for a in W] for W in (U, V)]
        return U, V, e, None, None, None, t, sw, None
    mh = [(x + tau * y) / st for x, y in zip(f1, f2)]
    ah = [(y - tau * x) / st for x, y in zip(f1, f2)]
    return U, V, e, mh, ah, f3, t, sw, m


def _solutions(c, tp, U, V):
    sols = tp.twinparam()
    if not c.check(sols is not None and len(sols) == 2, 'two solutions'):
        return None
    for Q, a, n in sols:
        c.eq(dot(n, n), 1, 'unit normal', tol=2e-8)
        F = [[U[i][j] + a[i] * n[j] for j in range(3)] for i in range(3)]
        c.eq(c.np.array(Q).dot(c.np.array(V)), F, 'Q U_j = U_i + a n', tol=1e-7)
        c.eq(mul(tr(F), F), mul(V, V), 'Q is a rotation', tol=1e-7)
    return sols


def parallel(c, a, b, msg, tol=1e-6):
    c.eq(cross(a, b), [0, 0, 0], msg, tol=tol)


def elements3(c, frame, free, turn='I', nperm=2, nsgn=2):
    """a pair without further symmetry: Type I / Type II"""
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    U, V, e = generic(c, frame, free, turn, nperm, nsgn)
    tp = t.TwinPair(np.array(U), np.array(V))
    if not c.check(tp.istwinnable(), 'variants related by a two-fold rotation form twins'):
        return
    ax = tp.ax()
    if not c.check(len(ax) == 1, 'one two-fold axis'):
        return
    c.check(not tp.iscompound() and tp.istypeI() and tp.istypeII(), 'a Type I/II pair')
    c.check(tp.isconventional(), 'the two-fold axis belongs to the cubic group')
    c.eq(dot(ax[0], ax[0]), 1, 'the axis is a unit vector', tol=1e-7)
    parallel(c, ax[0], e, 'the axis of the two-fold rotation that relates the variants')
    Ue = mv(U, e)
    ee = dot(e, e)
    c.eq(tp.XII() ** 2 * ee, dot(Ue, Ue), 'XII = |U e|', tol=1e-7)
    w = c.la.inv(np.array(U)).dot(np.array(e))
    c.eq(tp.XI() ** 2 * ee, dot(w, w), 'XI = |U^-1 e|', tol=1e-7)
    sols = _solutions(c, tp, U, V)
    if sols is None:
        return
    parallel(c, sols[0][2], e, 'the normal of the Type I twin is the axis')
    parallel(c, sols[1][1], Ue, 'the shear of the Type II twin is along U e')
    c.eq(tp.Ui(), U, 'the first variant')
    c.eq(tp.Uj(), V, 'the second variant')


CASES = [('tetr-%d' % k, elements, dict(fam='tetr', ax=k, ax2=q), dict(time=60)) for k, q in ((5, 6), (6, 5), (7, 8), (8, 7))]
CASES += [('face1-%d' % k, elements, dict(fam='face1', ax=k, ax2=1 - k), dict(time=60)) for k in range(2)]
CASES += [('not-twinnable-' + k, not_twinnable, dict(kind=k), {}) for k in ('same', 'cyc', 'cyc2')]
CASES += [('system-tetr', system_tetr, {}, dict(time=100)), ('system-orth', system_orth, {}, dict(time=100)), ('system-mono', system_mono, {}, dict(time=100)),
          ('system-hex', system_hex, {}, dict(time=100)),
          ('system-12', system_many, dict(U0=[[1.02, .03, 0], [.03, .96, 0], [0, 0, 1.05]], n=12, form='martensite'), dict(time=100)),
          ('system-12f', system_many, dict(U0=[[1.02, .02, .04], [.02, 1.02, .04], [.04, .04, .95]], n=12, form='reversed'), dict(time=100)),
          ('system-24', system_many, dict(U0=[[1.15, -.07, .05], [-.07, .93, -.05], [.05, -.05, 1.03]], n=24, form='martensite'), dict(time=100)),
          ('flags-3', flags, dict(n=3, some=[(0, 1), (0, 2), (1, 2)]), dict(time=60)),
          ('flags-9', flags, dict(n=9, some=[(0, 8), (7, 8)]), dict(time=60)),
          ('system-6', system_many, dict(U0=[[1.05, .06, 0], [.06, 1.05, 0], [0, 0, .9]], n=6, form='martensite'), dict(time=100))]
CASES += [('gen-%s-%s-%s' % (f, k, q), elements3, dict(frame=f, free=q, turn=k), dict(time=150)) for f, k, q in
          (('A', 'I', 'hr'), ('B', 'z', 'hr'), ('C', 'y', 'hr'), ('D', 'c', 'hr'), ('E', 'I', 'h'), ('E', 'I', 'r'), ('F', 'z', 'h'), ('F', 'z', 'r'),
           ('G', 'd', 'h'), ('G', 'd', 'r'), ('H', 'e', 'h'), ('H', 'e', 'r'), ('F', 'f', 'r'), ('E', 'f', 'r'), ('N', 'I', 'hr'), ('M', 'y', 'h'))]
