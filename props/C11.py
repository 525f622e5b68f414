"""Lattice reduction."""
from props.common import det, mul

BOUNDS = ('bases [[a, a x, a y], [0, a p, a z], [0, 0, a q]] and the plane bases [[a, a x], [0, a p]] (every lattice up to a '
          'rotation) with any scale a in 0.5..20 and shears and ratios in the boxes of the cases, all iterations of the '
          'reduction; rotated plane bases; general 2D and 3D bases for the orthogonalisation')
OUTSIDE = 'more skewed bases than the boxes allow; dimension > 3; integer typed arrays'


def gs(c, n, lo, hi):
    """Gram-Schmidt: E = Eo M^T, orthogonal columns, unit lower triangular M"""
    m = c.mod('structrans.crystallography.lattice_reduction')
    E = c.mat('e', n, n, lo, hi)
    for i in range(n):
        c.assume(E[i][i] >= 0.5)
        for j in range(n):
            if i != j:
                c.assume(c.And(E[i][j] <= 0.2, E[i][j] >= -0.2))
    K = E.copy()
    Eo, M = m.Gram_Schmidt(E)
    c.eq(E, K, 'the base is not modified', tol=1e-12)
    for i in range(n):
        c.eq(M[i][i], 1, 'unit diagonal')
        for j in range(i + 1, n):
            c.eq(M[i][j], 0, 'lower triangular coefficients')
            d = sum(Eo[k][i] * Eo[k][j] for k in range(n))
            c.eq(d, 0, 'orthogonal columns')
    c.eq(Eo.dot(M.T), E, 'the orthogonalisation reproduces the base')


def _tri(c, n, box, rot=0):
    """symbolic upper triangular base"""
    np = c.np
    a = c.real('a', 0.5, 20)
    if n == 2:
        x, p = c.real('x', *box['x']), c.real('p', *box['p'])
        E = np.array([[a, a * x], [0 * a, a * p]])
        R = {0: [[1, 0], [0, 1]], 1: [[0.8, -0.6], [0.6, 0.8]], 2: [[0, 1], [1, 0]]}[rot]
        return np.array(R).dot(E)
    x, p, y, z, q = [box[k] if not isinstance(box[k], tuple) else c.real(k, *box[k]) for k in 'xpyzq']
    z0 = 0 * a
    E = np.array([[a, a * x, a * y], [z0, a * p, a * z], [z0, z0, a * q]])
    R = {0: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1: [[0, 1, 0], [0, 0, 1], [1, 0, 0]], 2: [[0, 1, 0], [1, 0, 0], [0, 0, 1]]}[rot]
    return np.array(R).dot(E)


def _mu(B, n):
    """own Gram-Schmidt: coefficients and squared lengths"""
    col = [[B[k][i] for k in range(n)] for i in range(n)]
    o = []
    mu = [[0] * n for _ in range(n)]
    sq = []
    for i in range(n):
        b = list(col[i])
        for j in range(i):
            mu[i][j] = sum(col[i][k] * o[j][k] for k in range(n)) / sq[j]
            b = [b[k] - mu[i][j] * o[j][k] for k in range(n)]
        o.append(b)
        sq.append(sum(t * t for t in b))
    return mu, sq


def lll(c, n, box, rot=0):
    m = c.mod('structrans.crystallography')
    c.int_mode('fork')
    E = _tri(c, n, box, rot)
    K = E.copy()
    B = m.LLL(E)
    c.eq(E, K, 'the base is not modified', tol=1e-12)
    # B = E U
    U = c.la.inv(E).dot(B)
    c.check(c.all_int(U), 'the reduced base is an integral combination of the base')
    D = det([[U[i][j] for j in range(n)] for i in range(n)])
    c.eq(D, 1, 'the reduced base spans the same lattice with the same orientation')
    mu, sq = _mu(B, n)
    for i in range(n):
        for j in range(i):
            c.check(c.And(mu[i][j] <= 0.500001, mu[i][j] >= -0.500001), 'size reduced')
    for i in range(n - 1):
        # |b*_{i+1} + mu b*_i|^2 >= 3/4 |b*_i|^2
        c.check(sq[i + 1] + mu[i + 1][i] * mu[i + 1][i] * sq[i] >= 0.749999 * sq[i], 'the exchange condition with factor 3/4 holds')


CASES = [
    ('gs2', gs, dict(n=2, lo=-2, hi=2), dict(time=30)),
    ('gs3', gs, dict(n=3, lo=-2, hi=2), dict(time=60)),
    ('lll2', lll, dict(n=2, box=dict(x=(-2, 2), p=(0.3, 3))), dict(time=60)),
    ('lll2-flip', lll, dict(n=2, box=dict(x=(-2, 2), p=(-3, -0.3))), dict(time=60)),
    ('lll2-rot', lll, dict(n=2, box=dict(x=(-1.2, 1.2), p=(0.4, 3)), rot=1), dict(time=60)),
    ('lll2-mirror', lll, dict(n=2, box=dict(x=(-1.2, 1.2), p=(0.4, 3)), rot=2), dict(time=60)),
    ('lll3', lll, dict(n=3, box=dict(x=(-0.7, 0.7), p=(0.95, 1.5), y=(-0.7, 0.7), z=(-0.8, 0.8), q=(1.2, 2))), dict(time=90)),
    ('lll3-swap1', lll, dict(n=3, box=dict(x=(-0.4, 0.4), p=(0.5, 0.6), y=(-0.4, 0.4), z=(-0.2, 0.2), q=(1.2, 2))), dict(time=90)),
    ('lll3-swap2', lll, dict(n=3, box=dict(x=0, p=(1, 1.2), y=(-0.4, 0.4), z=(-0.2, 0.2), q=(0.7, 0.8))), dict(time=60)),
    ('lll3-swap2b', lll, dict(n=3, box=dict(x=0.25, p=1.25, y=0.125, z=(-0.9, 0.9), q=(-1, -0.5)), rot=2), dict(time=60)),
    ('lll3-long', lll, dict(n=3, box=dict(x=(-1.5, 1.5), p=0.5, y=1.7, z=0.3, q=0.33)), dict(time=60)),
    ('lll3-skew', lll, dict(n=3, box=dict(x=2.3, p=0.55, y=(3, 4), z=1.2, q=0.5)), dict(time=60)),
    ('lll3-swap2x', lll, dict(n=3, box=dict(x=(-0.4, 0.4), p=(1, 1.2), y=(-0.4, 0.4), z=(-0.2, 0.2), q=(0.7, 0.8))),
     dict(time=100, tier='thorough')),
    ('lll3-shear', lll, dict(n=3, box=dict(x=(-1.2, 1.2), p=(1, 1.5), y=(1.6, 2.4), z=(0.8, 2), q=(1.5, 2)), rot=1), dict(time=90)),
]
