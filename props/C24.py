"""Batch matrix operations."""
from props.common import det, mul

BOUNDS = ('lists of 1 to 3 real or integer matrices of dimension 1 to 4 with any entries in +-5; cofactors of any real 2 x 2 to '
          '4 x 4 matrix; eigenvalues of symmetric 2 x 2 and 3 x 3 matrices with any real spectrum')
OUTSIDE = 'larger matrices; removal of repeated rows (byte level view of the floats)'


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * _det([[M[i][k] for k in range(n) if k != j] for i in range(1, n)]) for j in range(n))


def _batch(c, name, n, k, ints=False):
    A = [[(c.int if ints else c.real)('%s%d_%d' % (name, r, i), -5, 5) for i in range(n * n)] for r in range(k)]
    return A, c.np.array(A), [[[a[n * i + j] for j in range(n)] for i in range(n)] for a in A]


def ops(c, n, k, ints=False):
    m = c.mod('structrans.mat_math')
    A, a, MA = _batch(c, 'a', n, k, ints)
    B, b, MB = _batch(c, 'b', n, k, ints)
    p = m.mat_dot(a, b)
    c.check(c.shape(p) == (k, n * n), 'one product for each pair')
    t = m.mat_trace(a)
    d = m.mat_det(a)
    T = m.mat_T(a)
    c.check(c.shape(t) == (k,) and c.shape(d) == (k,) and c.shape(T) == (k, n * n), 'one result for each matrix')
    for r in range(k):
        P = mul(MA[r], MB[r])
        c.eq(p[r], [P[i][j] for i in range(n) for j in range(n)], 'products')
        c.eq(t[r], sum(MA[r][i][i] for i in range(n)), 'traces')
        c.eq(d[r], _det(MA[r]), 'determinants')
        c.eq(T[r], [MA[r][j][i] for i in range(n) for j in range(n)], 'transposes')
    c.eq(a, A, 'the input is not modified')
    c.eq(b, B, 'the input is not modified')


def cof(c, n, mod, fn):
    f = c.private(mod, fn) if fn[0] == '_' else getattr(c.mod(mod), fn)
    A = c.mat('a', n, n, -5, 5)
    K = f(A)
    c.check(c.shape(K) == (n, n), 'the cofactor matrix is square')
    R = [[A[i][j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[R[p][q] for q in range(n) if q != j] for p in range(n) if p != i]
            c.eq(K[i][j], (-1) ** (i + j) * _det(minor), 'signed minors', tol=1e-7)
    D = _det(R)
    Ad = [[K[j][i] for j in range(n)] for i in range(n)]
    c.eq(mul(R, Ad), [[D if i == j else 0 for j in range(n)] for i in range(n)], 'A cof(A)^T = det(A) I', tol=1e-6)


def eig(c, n, fam):
    m = c.mod('structrans.mat_math')
    np = c.np
    lam = [c.real('l%d' % i, -3, 3) for i in range(n)]
    V = {2: [[0.6, -0.8], [0.8, 0.6]], 3: [[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.], [-1 / 3., 2 / 3., 2 / 3.]]}[n] \
        if fam else [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    C = [[sum(V[i][k] * lam[k] * V[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    rows = [[x for r in C for x in r], [1.0 if i == j else 0.0 for i in range(n) for j in range(n)]]
    c.register_spectrum(np.array(C), lam, np.array(V))
    e = m.mat_eig(np.array(rows))
    c.check(c.shape(e) == (2, n), 'n eigenvalues for each matrix')
    # as a multiset: power sums
    for p in (1, 2, 3)[:n]:
        s = sum(x for x in e[0]) if p == 1 else sum(x * x for x in e[0]) if p == 2 else sum(x * x * x for x in e[0])
        w = sum(x for x in lam) if p == 1 else sum(x * x for x in lam) if p == 2 else sum(x * x * x for x in lam)
        c.eq(s, w, 'eigenvalues of the first matrix', tol=1e-6)
    c.eq(e[1], [1.0] * n, 'eigenvalues of the second matrix', tol=1e-6)


def triples(c):
    m = c.mod('structrans.mat_math')
    a = c.value(c.int('a', -2, 2))
    k = c.value(c.int('k', 1, 3))
    Z = m.tuple(a, a + k)
    v = c.ivec('v', 3, -3, 5)
    inside = c.And(*[c.And(v[i] >= a, v[i] < a + k) for i in range(3)])
    hit = c.Or(*[c.And(*[v[i] == z[i] for i in range(3)]) for z in Z])
    c.check(c.And(c.implies(inside, hit), c.implies(hit, inside)), 'all integer triples of the range')
    c.check(c.shape(Z) == (k ** 3, 3), 'each triple once')


CASES = [('ops-%d-%d' % (n, k), ops, dict(n=n, k=k), dict(time=40)) for n, k in ((1, 2), (2, 1), (2, 3), (3, 1), (3, 2), (4, 1))]
CASES += [('ops-int-%d' % n, ops, dict(n=n, k=2, ints=True), dict(time=40)) for n in (2, 3)]
CASES += [('cof-%s-%d' % (f, n), cof, dict(n=n, mod=mod, fn=f), dict(time=40)) for mod, f, ns in
          (('structrans.mat_math', 'cofactor', (2, 3, 4)), ('structrans.marttrans.twin', '_brute_cof', (3,))) for n in ns]
CASES += [('eig-%d-%d' % (n, f), eig, dict(n=n, fam=f), dict(time=40)) for n in (2, 3) for f in (0, 1)]
CASES += [('triples', triples, {}, {})]
