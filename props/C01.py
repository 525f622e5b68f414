"""Enumeration of Hermite normal forms."""

BOUNDS = ('determinants 1..24 in dimension 1, 2 and 3 (quick: 1..12 in 3D), 1..4 in dimension 4; the membership question is '
          'decided for a symbolic integer matrix over its whole range')
OUTSIDE = 'larger determinants and dimensions (the code has no bound); determinant 0'


def _is_hnf(c, H, n, N):
    conds = []
    det = H[0][0]
    for i in range(1, N):
        det = det * H[i][i]
    conds.append(det == n)
    for i in range(N):
        conds.append(H[i][i] >= 1)
        for j in range(N):
            if j < i:
                conds.append(H[i][j] <= 0)
                conds.append(H[i][j] > -H[i][i])
            elif j > i:
                conds.append(H[i][j] == 0)
    return c.And(*conds)


def enumeration(c, N, lo, hi, ctor, default=False):
    m = c.mod('structrans.crystallography.' + ctor)
    n = c.value(c.int('n', lo, hi))
    L = m.hnf_from_det(n) if default else m.hnf_from_det(n, N)
    sh = c.shape(L)
    c.check(len(sh) == 3 and sh[1] == N and sh[2] == N, 'the enumeration is a list of N x N matrices')
    # every listed matrix is a Hermite normal form of that determinant
    for k in range(sh[0]):
        c.check(_is_hnf(c, L[k], n, N), 'listed matrix is a Hermite normal form of determinant n')
    # every Hermite normal form is listed, once: H ranges over all of them
    H = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            H[i][j] = c.int('h%d%d' % (i, j), -n, 0)
        H[i][i] = c.int('h%d%d' % (i, i), 1, n)
    c.assume(_is_hnf(c, H, n, N))
    eqs = []
    for k in range(sh[0]):
        eqs.append(c.And(*[H[i][j] == L[k][i][j] for i in range(N) for j in range(i + 1)]))
    c.check(c.Or(*eqs), 'every Hermite normal form of determinant n is listed')
    seen = {}
    for k in range(sh[0]):
        key = tuple(int(x) for r in L[k].tolist() for x in r)
        c.check(key not in seen, 'no matrix is listed twice')
        seen[key] = k


def from_diag(c, N, hi, ctor):
    m = c.mod('structrans.crystallography.' + ctor)
    d = [c.value(c.int('d%d' % i, 1, hi)) for i in range(N)]
    L = m.hnf_from_diag(d)
    n = 1
    for x in d:
        n *= x
    sh = c.shape(L)
    H = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            H[i][j] = c.int('h%d%d' % (i, j), -hi, 0)
        H[i][i] = d[i]
    c.assume(_is_hnf(c, H, n, N))
    eqs = []
    for k in range(sh[0]):
        c.check(c.And(_is_hnf(c, L[k], n, N), *[L[k][i][i] == d[i] for i in range(N)]),
                'listed matrix is a Hermite normal form with that diagonal')
        eqs.append(c.And(*[H[i][j] == L[k][i][j] for i in range(N) for j in range(i)]))
    c.check(c.Or(*eqs), 'every Hermite normal form with the diagonal is listed')
    c.check(len(set(tuple(int(x) for r in L[k].tolist() for x in r) for k in range(sh[0]))) == sh[0],
            'no matrix is listed twice')


def negative(c, ctor):
    m = c.mod('structrans.crystallography.' + ctor)
    n = c.int('n', -50, -1)
    N = c.value(c.int('N', 2, 4))
    c.check(c.raises(lambda: m.hnf_from_det(n, N), ValueError), 'a negative determinant is rejected with ValueError')


CASES = []
for _ct in ('hnf', 'sublattice'):
    CASES += [
        ('dim1-' + _ct, enumeration, dict(N=1, lo=1, hi=12, ctor=_ct), dict(time=40)),
        ('dim2-' + _ct, enumeration, dict(N=2, lo=1, hi=24, ctor=_ct), dict(time=40)),
        ('dim3a-' + _ct, enumeration, dict(N=3, lo=1, hi=7, ctor=_ct), dict(time=50)),
        ('dim3b-' + _ct, enumeration, dict(N=3, lo=8, hi=12, ctor=_ct, default=True), dict(time=60)),
        ('dim4-' + _ct, enumeration, dict(N=4, lo=1, hi=4, ctor=_ct), dict(time=60)),
        ('diag2-' + _ct, from_diag, dict(N=2, hi=5, ctor=_ct), dict(time=40)),
        ('diag3-' + _ct, from_diag, dict(N=3, hi=3, ctor=_ct), dict(time=40)),
        ('negative-' + _ct, negative, dict(ctor=_ct), dict(time=20)),
        ('dim3c-' + _ct, enumeration, dict(N=3, lo=13, hi=24, ctor=_ct), dict(time=120, tier='thorough')),
        ('dim4b-' + _ct, enumeration, dict(N=4, lo=5, hi=6, ctor=_ct), dict(time=120, tier='thorough')),
        ('dim2b-' + _ct, enumeration, dict(N=2, lo=25, hi=60, ctor=_ct), dict(time=120, tier='thorough')),
    ]
