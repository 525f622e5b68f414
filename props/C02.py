"""Hermite normal form decomposition of integer matrices."""
from props.C01 import _is_hnf

BOUNDS = ('all full-rank integer matrices: 1x1 with entries in +-50, 2x2 in +-6 (thorough +-12), 3x3 in +-1 (quick: 4 of the 9 choices of the first two entries) '
          '(thorough: families in +-2) and 3x3 families with wider entries: triangular, one large row')
OUTSIDE = 'larger entries and dimensions; rank-deficient input (excluded by the interface)'


def _det(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = 0
    for j in range(n):
        sub = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r = r + (-1) ** j * M[0][j] * _det(sub, n - 1)
    return r


def decompose(c, n, fill, ctor='hnf', float_in=False):
    """fill[i][j] is (lo, hi) or a number"""
    m = c.mod('structrans.crystallography.' + ctor)
    c.int_mode('fork')
    rows = []
    for i in range(n):
        row = []
        for j in range(n):
            f = fill[i][j]
            row.append(c.int('m%d%d' % (i, j), f[0], f[1]) if isinstance(f, tuple) else f)
        rows.append(row)
    d = _det(rows, n)
    c.assume(d != 0)
    M = c.np.array(rows)
    if float_in:
        M = M.astype('float')
    H, L = m.hnfd(M)
    sgn = 1 if d > 0 else -1
    c.check(c.shape(H) == (n, n) and c.shape(L) == (n, n), 'H and L are square')
    c.check(_is_hnf(c, H, d * sgn, n), 'H is the Hermite normal form: lower triangular, positive diagonal, '
                                       '-diag < off-diagonal <= 0, determinant |det M|')
    c.check(c.all_int(L), 'L is an integer matrix')
    dl = _det(L, n)
    c.check(c.Or(dl == 1, dl == -1), 'L is unimodular')
    prod = [[sum(H[i][k] * L[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    c.check(c.And(*[prod[i][j] == rows[i][j] for i in range(n) for j in range(n)]), 'H L = M')
    c.same(M, rows, 'the input matrix is not modified')


def only_h(c, n, fill, ctor='hnf'):
    m = c.mod('structrans.crystallography.' + ctor)
    c.int_mode('fork')
    rows = [[c.int('m%d%d' % (i, j), *fill[i][j]) if isinstance(fill[i][j], tuple) else fill[i][j]
             for j in range(n)] for i in range(n)]
    d = _det(rows, n)
    c.assume(d != 0)
    M = c.np.array(rows)
    H = m.hnfd(M, onlyH=True)
    sgn = 1 if d > 0 else -1
    c.check(_is_hnf(c, H, d * sgn, n), 'onlyH returns the Hermite normal form')
    c.same(M, rows, 'the input matrix is not modified')
    # the columns of H generate the columns of M: H adj = det, so det divides adj(H) M
    H2, _ = m.hnfd(M)
    c.same(H, H2, 'onlyH agrees with the full decomposition')


def same_lattice(c, n, fill, ctor='hnf'):
    """bases of the same sublattice have the same Hermite normal form"""
    m = c.mod('structrans.crystallography.' + ctor)
    c.int_mode('fork')
    rows = [[c.int('m%d%d' % (i, j), *fill[i][j]) if isinstance(fill[i][j], tuple) else fill[i][j]
             for j in range(n)] for i in range(n)]
    d = _det(rows, n)
    c.assume(d != 0)
    ops = {2: [[[1, 1], [0, 1]], [[0, 1], [1, 0]], [[-1, 0], [2, 1]]],
           3: [[[1, 0, 1], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [-1, 0, 0]]]}[n]
    U = c.pick('op', ops)
    R2 = [[sum(rows[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    H1 = m.hnfd(c.np.array(rows), onlyH=True)
    H2 = m.hnfd(c.np.array(R2), onlyH=True)
    c.same(H1, H2, 'two bases of one lattice have the same Hermite normal form')


def box(n, r):
    return [[(-r, r)] * n for _ in range(n)]


def sub3(a, b):
    f = box(3, 1)
    f[0][0] = a
    f[0][1] = b
    return f


P6, N6 = (1, 6), (-6, 0)
CASES = []
for _a, _n in ((P6, 'p'), (N6, 'n')):
    for _b, _k in ((P6, 'p'), (N6, 'n')):
        CASES.append(('dim2-%s%s' % (_n, _k), decompose, dict(n=2, fill=[[_a, _b], [(-6, 6), (-6, 6)]]),
                      dict(time=50, paths=20000)))
for _a in (-1, 0, 1):
    for _b in (-1, 0, 1):
        CASES.append(('dim3-%d%d' % (_a, _b), decompose, dict(n=3, fill=sub3(_a, _b)),
                      dict(time=100, paths=20000, tier='quick' if (_a, _b) in ((1, 0), (-1, 1), (0, -1), (0, 0)) else 'thorough')))
CASES += [
    ('dim1', decompose, dict(n=1, fill=box(1, 50)), dict(time=20)),
    ('dim3-tri', decompose, dict(n=3, fill=[[(1, 2), 0, 0], [(-4, 4), (-2, 2), 0], [(-4, 4), (-3, 3), 3]]),
     dict(time=50, paths=20000)),
    ('dim3-row', decompose, dict(n=3, fill=[[(0, 4), (0, 4), (-4, 0)], [(-2, 2), 1, -2], [1, 3, 0]]),
     dict(time=50, paths=20000)),
    ('onlyH', only_h, dict(n=2, fill=box(2, 3)), dict(time=50, paths=20000)),
    ('same2', same_lattice, dict(n=2, fill=box(2, 2)), dict(time=50, paths=20000)),
    ('float', decompose, dict(n=2, fill=box(2, 3), float_in=True), dict(time=50, paths=20000)),
    ('sub-dim2', decompose, dict(n=2, fill=box(2, 3), ctor='sublattice'), dict(time=50, paths=20000)),
    ('sub-dim3', decompose, dict(n=3, fill=[[(-1, 1), 2, 0], [1, (-2, 2), (-1, 1)], [0, (-3, 3), 1]], ctor='sublattice'),
     dict(time=50, paths=20000)),
    ('sub-onlyH', only_h, dict(n=2, fill=box(2, 2), ctor='sublattice'), dict(time=50, paths=20000)),
    ('dim3-tri-wide', decompose, dict(n=3, fill=[[(-3, 3), 0, 0], [(-6, 6), (-3, 3), 0], [(-6, 6), (-4, 4), (-3, 3)]]),
     dict(time=100, paths=20000, tier='thorough')),
    ('dim2-wide', decompose, dict(n=2, fill=box(2, 12)), dict(time=150, paths=20000, tier='thorough')),
    ('dim3-two', decompose, dict(n=3, fill=[[(-2, 2)] * 3, [(-2, 2), 1, (-1, 1)], [(-1, 1), 2, (-2, 2)]]),
     dict(time=150, paths=20000, tier='thorough')),
    ('same3', same_lattice, dict(n=3, fill=[[(-1, 1), 1, 1], [(-1, 1), (-1, 1), 2], [0, (-1, 1), (-1, 1)]]),
     dict(time=100, paths=20000, tier='thorough')),
]
