"""Distances between lattices."""
from props.common import mul, tr, det, eye

BOUNDS = ('any real bases E1 and any real inverse base E2^-1 with entries in +-3, any integer correspondence with entries in '
          '+-3 (2D and 3D); batches of 1, 2, 99, 100, 101 (thorough 130, 200) correspondences of which one is symbolic; strain distance: '
          'every deformation V diag(s) with s in 0.3..3 and V from a list of rotations; symmetry: all lattice group elements '
          'of the symbolic lattices of the cases')
OUTSIDE = 'floating point rounding; strain distances of deformations with directions not in the list'


def _fro(A):
    return sum(x * x for r in A for x in r)


def _cauchy(E1, L, E2i):
    n = len(L)
    F = mul(mul(E1, L), E2i)
    C = mul(F, tr(F))
    return _fro([[C[i][j] - (1 if i == j else 0) for j in range(n)] for i in range(n)])


def _eric(E1, L, E2):
    F = mul(E1, L)
    A, B = mul(tr(F), F), mul(tr(E2), E2)
    n = len(L)
    return _fro([[A[i][j] - B[i][j] for j in range(n)] for i in range(n)]) / _fro(B)


def _lists(A, n):
    return [[A[i][j] for j in range(n)] for i in range(n)]


def cauchy(c, n):
    m = c.mod('structrans.marttrans.lat_cor.dist')
    E1, E2i, L = c.mat('e', n, n, -3, 3), c.mat('f', n, n, -3, 3), c.imat('l', n, n, -3, 3)
    ref = _cauchy(_lists(E1, n), _lists(L, n), _lists(E2i, n))
    d = m.Cauchy_dist(L.flatten(), E1, E2i)
    c.eq(d, ref, 'the distance is |F^-1 F^-T - I|^2', tol=1e-7)
    c.eq(m.Cauchy_dist(L, E1, E2i), d, 'matrices and flattened matrices have the same distance')


def cauchy_zero(c, n):
    """distance zero when the transformation is a rotation"""
    m = c.mod('structrans.marttrans.lat_cor.dist')
    np = c.np
    if n == 2:
        E2 = c.mat('e', n, n, -3, 3)
        d = det(_lists(E2, n))
        c.assume(c.Or(d >= 0.1, d <= -0.1))
    else:
        a, b, d = [c.real(k, 0.5, 3) for k in 'abd']
        x, y, z = [c.real(k, -3, 3) for k in 'xyz']
        E2 = np.array([[a, x, y], [0 * a, b, z], [0 * a, 0 * a, d]])
    L = {2: [[1, 1], [0, 1]], 3: [[1, 1, 0], [0, 1, -1], [0, 0, 1]]}[n]
    Li = {2: [[1, -1], [0, 1]], 3: [[1, -1, -1], [0, 1, 1], [0, 0, 1]]}[n]
    Q = {2: [[0.6, -0.8], [0.8, 0.6]], 3: [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]]}[n]
    E1 = np.array(Q).dot(E2).dot(np.array(Li))
    c.eq(m.Cauchy_dist(np.array(L).flatten(), E1, c.la.inv(E2)), 0, 'no strain, no distance', tol=1e-7)
    c.eq(m.Eric_dist(np.array(L).flatten(), E1, E2), 0, 'no strain, no distance', tol=1e-7)


def eric(c, n):
    m = c.mod('structrans.marttrans.lat_cor.dist')
    np = c.np
    E1, L = c.mat('e', n, n, -3, 3), c.imat('l', n, n, -3, 3)
    if n == 2:
        E2 = c.mat('f', n, n, -3, 3)
        c.assume(E2[0][0] >= 0.5)
    else:
        a, b = c.real('a', 0.5, 3), c.real('b', -3, 3)
        E2 = np.array([[a, b, 0.25 * a], [0 * a, 1 + 0 * a, 0.5 + 0 * a], [0.75 + 0 * a, 0 * a, 1.25 + 0 * a]])
    ref = _eric(_lists(E1, n), _lists(L, n), _lists(E2, n))
    d = m.Eric_dist(L.flatten(), E1, E2)
    c.eq(d, ref, 'the distance is |L^T g1 L - g2|^2 / |g2|^2', tol=1e-7)


ROT3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.6, -0.8, 0], [0.8, 0.6, 0], [0, 0, 1]],
        [[0, 0.6, 0.8], [0, -0.8, 0.6], [1, 0, 0]], [[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.], [-1 / 3., 2 / 3., 2 / 3.]]]
ROT2 = [[[1, 0], [0, 1]], [[0.6, -0.8], [0.8, 0.6]], [[0, -1], [1, 0]]]


def strain(c, n):
    """sum of the squared principal strains of the inverse transformation"""
    m = c.mod('structrans.marttrans.lat_cor.dist')
    np = c.np
    V = c.pick('v', ROT2 if n == 2 else ROT3)
    W = c.pick('w', (ROT2 if n == 2 else ROT3)[:2])
    s = [c.real('s%d' % i, 0.3, 3) for i in range(n)]
    V = np.array(V)
    E1 = V.dot(np.diag(s)).dot(np.array(W))
    L = {2: [[1, 1], [0, 1]], 3: [[1, 1, 0], [0, 1, -1], [0, 0, 1]]}[n]
    Li = {2: [[1, -1], [0, 1]], 3: [[1, -1, -1], [0, 1, 1], [0, 0, 1]]}[n]
    E2i = np.array(Li)
    C = E1.dot(E1.T)
    c.register_spectrum(C, [x * x for x in s], V)
    want = sum((x - 1) * (x - 1) for x in s)
    c.eq(m.strain_dist(np.array(L).flatten(), E1, E2i), want, 'the distance is the sum of the squared principal strains', tol=1e-7)


def batch(c, n, size):
    """a batch gives the distances of its members"""
    m = c.mod('structrans.marttrans.lat_cor.dist')
    np = c.np
    E1 = c.mat('e', n, n, -3, 3)
    E2i = c.mat('f', n, n, -3, 3) if n == 2 else np.array([[1, 0.5, 0], [0, 1.25, c.real('f', -3, 3)], [0.25, 0, 0.8]])
    if n == 3:
        E1 = np.array([[c.real('a', -3, 3), 0.5, 0], [c.real('b', -3, 3), 1, 0.25], [0.125, c.real('d', -3, 3), 2]])
    pos = c.pick('pos', sorted(set([0, size // 2, size - 1])))
    xs = []
    for k in range(size):
        if k == pos:
            xs.append([c.int('l%d' % i, -3, 3) for i in range(n * n)])
        else:
            xs.append([((k + 1) * (i + 2) + k * k // 3) % 7 - 3 for i in range(n * n)])
    d = m.Cauchy_dist_vec(np.array(xs), E1, E2i)
    if not c.check(c.shape(d) == (size,), 'one distance for each correspondence'):
        return
    e, f = _lists(E1, n), _lists(E2i, n)
    for k in sorted(set([0, 1, size // 2, size - 2, size - 1, pos]) & set(range(size))):
        x = xs[k]
        L = [x[n * i:n * i + n] for i in range(n)]
        c.eq(d[k], _cauchy(e, L, f), 'the batch distance is the distance of the member', tol=1e-7)


def invariance(c, kind):
    """crystallographically equivalent correspondences have the same distance"""
    m = c.mod('structrans.marttrans.lat_cor.dist')
    np = c.np
    a, b = c.real('a', 0.5, 3), c.real('b', 0.5, 3)
    r = c.real('r', 0.5, 3)
    # (base, integral symmetry matrices)
    if kind == '2':
        n = 2
        E1, G1 = [[a, a / 2], [0, a * np.sqrt(3) / 2]], [[[0, -1], [1, 1]], [[1, 1], [0, -1]]]
        E2, G2 = [[b, 0], [0, r]], [[[1, 0], [0, -1]], [[-1, 0], [0, -1]]]
    else:
        n = 3
        h = a / 2
        E1, G1 = [[0, h, h], [h, 0, h], [h, h, 0]], [[[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, -1, -1], [0, 0, 1], [0, 1, 0]]]
        E2, G2 = [[b, 0, 0], [0, b, 0], [0, 0, r]], [[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]]]
    L = c.imat('l', n, n, -3, 3)
    q1, q2 = np.array(c.pick('g', G1)), np.array(c.pick('h', G2))
    K = q1.dot(L).dot(q2)
    E1, E2 = np.array(E1), np.array(E2)
    E2i = c.la.inv(E2)
    c.eq(m.Cauchy_dist(K.flatten(), E1, E2i), m.Cauchy_dist(L.flatten(), E1, E2i), 'equivalent correspondences are equally close', tol=1e-7)
    c.eq(m.Eric_dist(K.flatten(), E1, E2), m.Eric_dist(L.flatten(), E1, E2), 'equivalent correspondences are equally close', tol=1e-7)


CASES = [('cauchy2', cauchy, dict(n=2), {}), ('cauchy3', cauchy, dict(n=3), {}),
         ('zero2', cauchy_zero, dict(n=2), {}), ('zero3', cauchy_zero, dict(n=3), {}),
         ('eric2', eric, dict(n=2), {}), ('eric3', eric, dict(n=3), {}),
         ('strain2', strain, dict(n=2), {}), ('strain3', strain, dict(n=3), {}),
         ('inv2', invariance, dict(kind='2'), {}), ('inv3', invariance, dict(kind='3'), {})]
CASES += [('batch%d-%d' % (n, s), batch, dict(n=n, size=s), {}) for n in (2, 3) for s in (1, 2, 99, 100, 101)]
CASES += [('batch%d-%d' % (n, s), batch, dict(n=n, size=s), dict(tier='thorough')) for n in (2, 3) for s in (130, 200)]
