"""Sublattices are reduced to one representative per orbit of the lattice group."""
from props.common import det, mul, cubic24

BOUNDS = ('plane square, hexagonal, rectangular, oblique and centred rectangular lattice groups with indices 1..6 (thorough 12), cubic, hexagonal, tetragonal, '
          'trigonal, face centred and body centred cubic groups with indices 2..4 (thorough 6); the form looked for is a symbolic integer matrix; lists that are partial, reordered, repeated, and reduced in two '
          'parts with every distribution of up to 6 forms')
OUTSIDE = 'larger indices; dimension > 3'

MOD = 'structrans.marttrans.lat_cor.main_hnf'
LATS = {'sq': (1, [1.0], 2), 'rect': (2, [1.0, 1.3], 2), 'crect': (3, [1.0, 1.3], 2), 'hex': (4, [1.0], 2), 'obl': (5, [1.0, 1.2, 100], 2),
        'cub': (1, [1.0], 3), 'fcc': (2, [1.0], 3), 'bcc': (3, [1.0], 3), 'hex3': (4, [1.0, 1.3], 3), 'trig': (5, [1.0, 75], 3), 'tet': (6, [1.0, 1.3], 3),
        'orth': (8, [1.0, 1.2, 1.4], 3), 'mono': (12, [1.0, 1.2, 1.4, 100], 3)}


def group(c, lat):
    ID, p, n = LATS[lat]
    g = c.mod('structrans').BravaisLattice(ID, p, dim=n).special_lattice_group().matrices()
    return g, [[[int(c.value(x)) for x in r] for r in q] for q in g], n


def diags(n, N):
    if N == 1:
        return [(n,)]
    return [(d,) + t for d in range(1, n + 1) if n % d == 0 for t in diags(n // d, N - 1)]


def adj(H):
    n = len(H)
    if n == 2:
        return [[H[1][1], -H[0][1]], [-H[1][0], H[0][0]]]
    return [[H[(j + 1) % 3][(i + 1) % 3] * H[(j + 2) % 3][(i + 2) % 3] - H[(j + 1) % 3][(i + 2) % 3] * H[(j + 2) % 3][(i + 1) % 3]
             for j in range(3)] for i in range(3)]


def inv_int(M):
    d = det(M)
    return [[x * d for x in r] for r in adj(M)]


def tolist(c, H):
    return [[int(c.value(x)) for x in r] for r in H]


def same_lattice(A, B):
    """integer matrices of equal determinant span the same lattice"""
    d = det(A)
    return all(x % d == 0 for r in mul(adj(A), B) for x in r)


def symform(c, n, N, name):
    """a symbolic Hermite normal form of determinant n: diagonal picked, off-diagonal entries symbolic"""
    D = c.pick(name + 'diag', diags(n, N))
    H = [[0] * N for _ in range(N)]
    for i in range(N):
        H[i][i] = D[i]
        for j in range(i):
            H[i][j] = c.int('%s%d%d' % (name, i, j), -(D[i] - 1), 0) if D[i] > 1 else 0
    return H


def in_orbit(c, reps, lg, H, n):
    """formula: some group element moves the sublattice of the symbolic form H onto that of a representative"""
    conds, seen = [], set()
    for R in reps:
        A = adj(R)
        for M in lg:
            # R^-1 M H integral
            K = mul(A, M)
            key = tuple(x % n for r in K for x in r)
            if key in seen:
                continue
            seen.add(key)
            rows = []
            for r in mul([[x % n for x in q] for q in K], H):
                rows += [_div(c, x, n) for x in r]
            conds.append(c.And(*rows))
    return c.Or(*conds)


def _div(c, x, n):
    """formula: n divides the integer term x (coefficients are non-negative, entries between -n and n)"""
    if c.is_concrete(c.np.array([x])):
        return int(c.value(x)) % n == 0
    b = 3 * n
    return c.Or(*[x == k * n for k in range(-b, b + 1)])


def distinct(c, reps, lg):
    for i in range(len(reps)):
        for j in range(i):
            if det(reps[i]) == det(reps[j]):
                for M in lg:
                    if same_lattice(reps[i], mul(M, reps[j])):
                        c.fail('two representatives are equivalent under the lattice group')
                        return
    c.reached()


def whole(c, lat, n):
    m = c.mod(MOD)
    red = c.private(MOD, 'reduce_hnfs')
    g, lg, N = group(c, lat)
    hs = c.mod('structrans.crystallography').HermiteNormalForms(n, N)
    k = [x for x in hs]
    reps = red([k, g, lambda *a, **kw: None])
    R = [tolist(c, h) for h in reps]
    K = [tolist(c, h) for h in k]
    c.check(all(r in K for r in R), 'the representatives are forms of the list')
    distinct(c, R, lg)
    H = symform(c, n, N, 'h')
    c.check(in_orbit(c, R, lg, H, n), 'every sublattice is equivalent to a representative')


def partial(c, lat, n, drop):
    """lists that contain only some of the forms, in another order, some of them twice, with mixed indices"""
    red = c.private(MOD, 'reduce_hnfs')
    g, lg, N = group(c, lat)
    HF = c.mod('structrans.crystallography').HermiteNormalForms
    k = [x for x in HF(n, N)] + [x for x in HF(n - 1, N)]
    k = [h for i, h in enumerate(k) if i % 3 != drop][::-1]
    k = k + k[:2]
    reps = red((k, g))
    R, K = [tolist(c, h) for h in reps], [tolist(c, h) for h in k]
    c.check(all(r in K for r in R), 'the representatives are forms of the list')
    distinct(c, R, lg)
    H = symform(c, n, N, 'h')
    c.assume(c.Or(*[c.And(*[H[i][j] == h[i][j] for i in range(N) for j in range(N)]) for h in K if det(h) == n]))
    c.check(in_orbit(c, [r for r in R if det(r) == n], lg, H, n), 'every form of the list is equivalent to a representative')


def parts(c, lat, n):
    """reduced in two parts and merged: the same orbits for every distribution"""
    red = c.private(MOD, 'reduce_hnfs')
    g, lg, N = group(c, lat)
    hs = [x for x in c.mod('structrans.crystallography').HermiteNormalForms(n, N)]
    p = [[], []]
    for i, h in enumerate(hs):
        p[c.choice('part%d' % i, 2) if i else 0].append(h)
    out = []
    for q in p:
        out.extend(red((q, g)))
    reps = red((out, g))
    R = [tolist(c, h) for h in reps]
    distinct(c, R, lg)
    H = symform(c, n, N, 'h')
    c.check(in_orbit(c, R, lg, H, n), 'every sublattice is equivalent to a representative')


CASES = []
for lat in ('sq', 'rect', 'crect', 'hex', 'obl'):
    for n in range(1, 13):
        if n > 1 or lat == 'sq':
            CASES.append(('whole-%s-%d' % (lat, n), whole, dict(lat=lat, n=n), dict(time=60, tier='quick' if n <= 6 else 'thorough')))
for lat in ('cub', 'fcc', 'bcc', 'hex3', 'trig', 'tet', 'orth', 'mono'):
    for n in range(2, 7):
        CASES.append(('whole-%s-%d' % (lat, n), whole, dict(lat=lat, n=n), dict(time=120, tier='quick' if n <= 4 else 'thorough')))
CASES += [('partial-%s-%d-%d' % (lat, n, d), partial, dict(lat=lat, n=n, drop=d), {}) for lat, n, d in
          (('sq', 4, 0), ('hex', 4, 1), ('obl', 3, 2), ('crect', 5, 1), ('cub', 3, 0), ('fcc', 2, 1), ('trig', 3, 2))]
CASES += [('parts-%s-%d' % (lat, n), parts, dict(lat=lat, n=n), dict(time=90)) for lat, n in (('sq', 3), ('hex', 4), ('sq', 5), ('fcc', 2))]
