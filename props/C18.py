"""The search over lattice invariant shears keeps the best inequivalent correspondences within reach."""
import itertools
from props.common import mul, det, eye, gram, tr

BOUNDS = ('reach: every product of up to 3 (thorough: 4) elementary shears in three and of up to 4 (6) in two dimensions, the product being a symbolic integer matrix; '
          'bookkeeping: square and rectangular, and hexagonal lattices, every assignment of distances (any reals, ties included) to 2 to 5 '
          'classes of correspondences within reach, 1 to 4 wanted solutions, depths 1 to 3; real distances (Cauchy, Ericksen and, with the norm of the inverse deformation, which orders alike, strain): plane '
          'lattices with any axial ratio and any shear in the boxes of the cases, depths 1 and 2')
OUTSIDE = ('correspondences more than the given number of shears away from the best one (the search is local by design); the '
           'bookkeeping for three dimensional lattices with symmetry is exercised on listed lattices')

LO = 'structrans.marttrans.lat_cor.lat_opt'
DIST = 'structrans.marttrans.lat_cor.dist'


def shears(n):
    out = []
    for i in range(n):
        for j in range(n):
            if i != j:
                for s in (1, -1):
                    M = eye(n)
                    M[i][j] = s
                    out.append(M)
    return out


def flat(M):
    return tuple(x for r in M for x in r)


def unflat(t, n):
    return [list(t[i * n:(i + 1) * n]) for i in range(n)]


def products(n, d):
    """all products of up to d elementary shears"""
    T = shears(n)
    lev = {flat(eye(n))}
    out = set(lev)
    for _ in range(d):
        lev = {flat(mul(unflat(a, n), t)) for a in lev for t in T} - out
        out |= lev
    return sorted(out)


def toints(c, x):
    return tuple(int(c.value(v)) for v in (x.flatten() if hasattr(x, 'flatten') else x))


def patch(c, f):
    """replace the distance functions by f(tuple)"""
    m = c.mod(LO)
    for name in ('Cauchy_dist',):
        c.stub(name, lambda x, *a, **k: f(toints(c, x)), LO, DIST)
    return m


TRIC = {2: [[1.0, 0.23], [0, 1.1]], 3: [[1.0, 0.1, 0.15], [0, 1.07, 0.21], [0, 0, 1.13]]}


def reach(c, n, depth):
    """every product of up to `depth` shears of the best correspondence is reached"""
    np = c.np
    w = [1.0 + 0.01 * k * k for k in range(n * n)]
    I = flat(eye(n))

    def f(t):
        return sum(w[k] * (t[k] - I[k]) ** 2 for k in range(n * n))
    m = patch(c, f)
    E = np.array(TRIC[n])
    r = m.lat_opt(E, E, nsol=10 ** 5, miniter=depth, maxiter=depth, disp=0)
    got = [toints(c, L) for L in r['lopt']]
    c.check(len(got) == len(set(got)), 'no correspondence is reported twice')
    c.check(got[0] == I, 'the best correspondence comes first')
    c.check(all(det(unflat(t, n)) == 1 for t in got), 'correspondences are unimodular')
    d = list(r['dopt'])
    for a, b in zip(d, d[1:]):
        if not a <= b:
            c.fail('solutions are sorted by distance')
            break
    ref = products(n, depth)
    b = max(abs(v) for t in ref for v in t)
    X = [c.int('x%d' % k, -b, b) for k in range(n * n)]

    def eqs(lst):
        return c.Or(*[c.And(*[X[k] == t[k] for k in range(n * n)]) for t in lst])
    # up to the equivalences of the two lattices (in the plane: the sign)
    G1, G2 = groups(c, E, E)
    full = sorted(set(u for t in got for u in orbit(G1, t, G2, n)))
    c.assume(eqs(ref))
    c.check(eqs(full), 'every product of shears within the depth is reached')


def words(n, deep):
    """a spread of products needing exactly `deep` shears"""
    near = set(products(n, deep - 1))
    return [t for t in products(n, deep) if t not in near]


def orbit(G1, t, G2, n):
    L = unflat(t, n)
    return frozenset(flat(mul(mul(a, L), b)) for a in G1 for b in G2)


def lattices(c, which):
    h = 3 ** 0.5 / 2
    return {'sq-rect': ([[1.0, 0], [0, 1.0]], [[1.0, 0], [0, 1.2]]),
            'hex-hex': ([[1.0, -0.5], [0, h]], [[1.1, -0.55], [0, 1.1 * h]]),
            'hex-rect': ([[1.0, -0.5], [0, h]], [[1.0, 0], [0, 1.2]]),
            'rect-hex': ([[1.0, 0], [0, 1.2]], [[1.0, -0.5], [0, h]]),
            'obl-sq': ([[1.0, 0.3], [0, 1.1]], [[1.0, 0], [0, 1.0]]),
            'cub-tet': ([[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [[1.0, 0, 0], [0, 1, 0], [0, 0, 1.2]]),
            'ort-cub': ([[1.3, 0, 0], [0, 1.6, 0], [0, 0, 1.1]], [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]]),
            'ort-fcc': ([[1.3, 0, 0], [0, 1.6, 0], [0, 0, 1.1]], [[1.0, 0, 1.0], [1.0, 1.0, 0], [0, 1.0, 1.0]]),
            'mon-ort': ([[1.3, 0, 0.2], [0, 1.6, 0], [0, 0, 1.1]], [[1.1, 0, 0], [0, 1.2, 0], [0, 0, 1.4]]),
            'tet-cub': ([[1.0, 0, 0], [0, 1, 0], [0, 0, 1.2]], [[1.0, 0, 0], [0, 1, 0], [0, 0, 1]]),
            }[which]


def groups(c, E1, E2):
    Lat = c.mod('structrans').Lattice
    return [[[[int(c.value(x)) for x in q] for q in g] for g in Lat(E).special_lattice_group().matrices()] for E in (E1, E2)]


def verify(c, r, dist, G1, G2, n, nsol, depth, tol=1e-9):
    """the contract of the search against the distance `dist` of integer tuples"""
    got = [toints(c, L) for L in r['lopt']]
    d = list(r['dopt'])
    c.check(len(got) == len(d) and len(got) >= 1, 'as many distances as correspondences')
    for L in r['lopt']:
        c.check(c.shape(L) == (n, n), 'a correspondence is a matrix')
    keys = [orbit(G1, t, G2, n) for t in got]
    c.check(len(set(keys)) == len(keys), 'solutions are not equivalent to each other')
    for t, x in zip(got, d):
        c.check(det(unflat(t, n)) == 1, 'correspondences are unimodular and preserve the orientation')
        c.eq(x, dist(t), 'the reported distance is the distance of the correspondence', tol=tol)
    for i in range(len(d) - 1):
        c.check(d[i] <= d[i + 1] + tol, 'solutions are sorted by distance')
    for i in range(nsol, len(d)):
        c.check(d[i] <= d[nsol - 1] + tol, 'more solutions than wanted only if they are equally good')
    # nothing within reach of the best is missed (of one of the best, if several are equally good)
    W = products(n, depth)

    def complete(t):
        conds, seen = [], set(keys)
        for w in W:
            u = flat(mul(unflat(t, n), unflat(w, n)))
            k = orbit(G1, u, G2, n)
            if k in seen:
                continue
            seen.add(k)
            conds.append(dist(u) >= d[nsol - 1] - tol if len(d) >= nsol else False)
        return c.And(*conds)
    alt = [complete(got[0])]
    for i in range(1, len(d)):
        e = c.close(d[i], d[0], tol)
        if e is not False:
            alt.append(c.And(e, complete(got[i])))
    c.check(c.Or(*alt), 'no better correspondence within reach is missed')
    c.check(c.And(*[dist(flat(mul(unflat(got[0], n), unflat(w, n)))) >= d[0] - tol for w in products(n, 1)]),
            'the best solution is not further than its neighbours')


def books(c, lat, special, nsol, depth, scale=1):
    """bookkeeping for any distances of the special correspondences"""
    np = c.np
    E1, E2 = lattices(c, lat)
    n = len(E1)
    E1, E2 = np.array(E1), np.array(E2)
    G1, G2 = groups(c, E1, E2)
    orb, ds = [], []
    for t in special:
        k = orbit(G1, t, G2, n)
        if k not in orb:
            orb.append(k)
            ds.append(c.real('d%d' % len(orb), 0, 10))
    memo = {}

    def f(t):
        if t not in memo:
            k = orbit(G1, t, G2, n)
            v = ds[orb.index(k)] if k in orb else 50.0 + min(sum(x * x for x in s) for s in k) + 0.001 * max(abs(x) for s in k for x in s)
            for s in k:
                memo[s] = v
        return memo[t]
    m = patch(c, f)
    r = m.lat_opt(E1, E2, nsol=nsol, miniter=depth, maxiter=depth, disp=0)
    verify(c, r, f, G1, G2, n, nsol, depth)


def real(c, E1, E2, kind, nsol, depth, box):
    """the distances of the library, lattices with symbolic parameters"""
    np = c.np
    p = {k: (c.real(k, *v) if isinstance(v, tuple) else v) for k, v in box.items()}
    z = 0 * list(p.values())[0]
    mk = {'rect': lambda q: [[1.0 + z, z], [z, q]], 'obl': lambda q: [[1.0 + z, q], [z, 1.3 + z]],
          'sq': lambda q: [[q, z], [z, q]], 'skew': lambda q: [[1.0 + z, 2.2 + z], [z, q]],
          'one': lambda q: [[1.0, 0.0], [0.0, 1.0]], 'hex': lambda q: [[1.0, -0.5], [0, 0.75 ** 0.5]]}
    A, B = np.array(mk[E1](p.get('a'))), np.array(mk[E2](p.get('b')))
    kw = {} if kind == 'Cauchy' else dict(dist=kind)
    A0, B0 = A.copy(), B.copy()
    if kind == 'strain':
        # |F^-1|^2 orders unimodular correspondences of the plane as the strain does (strain_dist itself: C12)
        c.stub('strain_dist', lambda x, e1, e2i: (lambda F: sum(v * v for v in F.flatten()))(e1.dot(x.reshape(2, 2)).dot(e2i)), LO, DIST)
    r = c.mod(LO).lat_opt(A, B, nsol=nsol, miniter=depth, maxiter=depth, disp=0, **kw)
    c.eq(A, A0, 'the bases are not modified')
    c.eq(B, B0, 'the bases are not modified')
    G1, G2 = groups(c, A, B)
    ga, gb = gram(A), gram(B)
    a, b, cc = gb[0][0], gb[0][1], gb[1][1]
    idet = 1 / (a * cc - b * b)
    gi = [[cc * idet, -b * idet], [-b * idet, a * idet]]
    memo = {}

    def f(t):
        if t not in memo:
            L = unflat(t, 2)
            M = mul(tr(L), mul(ga, L))
            if kind == 'Cauchy':
                # |E1 L E2^-1 (..)^T - 1|^2 = tr(P P) - 2 tr P + 2 with P = L^T g1 L g2^-1
                P = mul(M, gi)
                v = sum(P[i][j] * P[j][i] for i in range(2) for j in range(2)) - 2 * (P[0][0] + P[1][1]) + 2
            elif kind == 'strain':
                P = mul(M, gi)
                v = P[0][0] + P[1][1]
            else:
                D = [[M[i][j] - gb[i][j] for j in range(2)] for i in range(2)]
                v = sum(D[i][j] * D[i][j] for i in range(2) for j in range(2)) / sum(gb[i][j] * gb[i][j] for i in range(2) for j in range(2))
            memo[t] = v
        return memo[t]
    verify(c, r, f, G1, G2, 2, nsol, depth, tol=1e-7)


def wrapper(c):
    """the wrapper for parallel workers, given groups, default depths; results of earlier calls stay"""
    np = c.np
    E1, E2 = lattices(c, 'sq-rect')
    E1, E2 = np.array(E1), np.array(E2)
    G1, G2 = groups(c, E1, E2)
    d = [c.real('d%d' % i, 0, 10) for i in range(2)]
    sp = [orbit(G1, t, G2, 2) for t in ((1, 0, 0, 1), (1, 1, 0, 1))]

    def f(t):
        k = orbit(G1, t, G2, 2)
        return d[sp.index(k)] if k in sp else 50.0 + sum(x * x for x in t)
    m = patch(c, f)
    c.private(LO, 'lat_opt_unpack')
    G = np.array([[[int(x) for x in r] for r in g] for g in G2])
    i = c.pick('ihnf', [0, 3, 7])
    j, r = m.lat_opt_unpack((E1, E2, dict(nsol=2, disp=0, SOLG2=G, miniter=1, maxiter=1), i))
    c.check(j == i, 'the number of the sublattice is handed back')
    first = [toints(c, L) for L in r['lopt']], list(r['dopt'])
    verify(c, r, f, G1, G2, 2, 2, 1)
    r2 = m.lat_opt(E1, E2, nsol=1, disp=0, miniter=1, maxiter=1)
    verify(c, r2, f, G1, G2, 2, 1, 1)
    c.check([toints(c, L) for L in r['lopt']] == first[0] and len(r['dopt']) == len(first[1]), 'earlier results are not changed')
    # default depth: at least three shears
    r3 = m.lat_opt(E1, E2, disp=0)
    verify(c, r3, f, G1, G2, 2, 1, 3)
    # depth grows while there are updates
    r4 = m.lat_opt(E1, E2, disp=0, nsol=2, miniter=1, maxiter=3)
    verify(c, r4, f, G1, G2, 2, 2, 1)


I2 = (1, 0, 0, 1)
CASES = [('reach-2-1', reach, dict(n=2, depth=1), {}), ('reach-2-3', reach, dict(n=2, depth=3), {}),
         ('reach-3-2', reach, dict(n=3, depth=2), dict(time=120)),
         ('reach-2-4', reach, dict(n=2, depth=4), dict(time=200)),
         ('reach-3-3', reach, dict(n=3, depth=3), dict(time=200)),
         ('reach-2-6', reach, dict(n=2, depth=6), dict(time=600, tier='thorough')),
         ('reach-3-4', reach, dict(n=3, depth=4), dict(time=800, tier='thorough'))]
S2 = {'a': [I2, (1, 1, 0, 1), (1, 0, 1, 1)], 'b': [(1, 1, 0, 1), (1, 2, 0, 1), (2, 1, 1, 1)], 'c': [(1, 0, 2, 1), (1, 1, 1, 2)],
      'd': [I2, (1, 1, 0, 1), (1, -1, 0, 1), (1, 0, 1, 1), (1, 0, -1, 1)], 'e': [(2, 1, 1, 1), (1, 1, 1, 2), (1, 2, 0, 1), I2]}
for lat, s, nsol, depth, tier in (('sq-rect', 'a', 1, 1, 'quick'), ('sq-rect', 'a', 2, 2, 'quick'), ('hex-rect', 'a', 2, 1, 'quick'),
                                  ('rect-hex', 'd', 2, 1, 'quick'), ('hex-hex', 'b', 2, 2, 'quick'), ('obl-sq', 'b', 1, 2, 'quick'),
                                  ('obl-sq', 'c', 2, 2, 'quick'), ('sq-rect', 'e', 3, 2, 'quick'), ('obl-sq', 'd', 4, 1, 'quick'),
                                  ('rect-hex', 'e', 2, 2, 'quick'), ('obl-sq', 'd', 2, 2, 'thorough'), ('rect-hex', 'd', 3, 3, 'quick'),
                                  ('obl-sq', 'e', 2, 3, 'quick')):
    CASES.append(('books-%s-%s-%d-%d' % (lat, s, nsol, depth), books, dict(lat=lat, special=S2[s], nsol=nsol, depth=depth), dict(time=60, tier=tier)))
I3 = flat(eye(3))
S3 = [I3, (1, 1, 0, 0, 1, 0, 0, 0, 1), (1, 0, 1, 0, 1, 0, 0, 0, 1)]
CASES += [('books-cub-tet', books, dict(lat='cub-tet', special=S3, nsol=2, depth=1), dict(time=90)),
          ('books-tet-cub', books, dict(lat='tet-cub', special=S3, nsol=2, depth=2), dict(time=400, tier='thorough')),
          ('books-ort-cub', books, dict(lat='ort-cub', special=S3, nsol=3, depth=2), dict(time=120)),
          ('books-ort-fcc', books, dict(lat='ort-fcc', special=S3, nsol=3, depth=1), dict(time=120)),
          ('books-ort-cub-1', books, dict(lat='ort-cub', special=S3[1:], nsol=2, depth=1), dict(time=120)),
          ('books-mon-ort', books, dict(lat='mon-ort', special=S3, nsol=2, depth=1), dict(time=120)),
          ('books-tet-cub-1', books, dict(lat='tet-cub', special=S3[1:], nsol=1, depth=1), dict(time=90))]
for E1, E2, kind, nsol, depth, box in (('one', 'rect', 'Cauchy', 2, 1, dict(b=(0.8, 1.6))), ('one', 'rect', 'Ericksen', 2, 1, dict(b=(0.8, 1.6))),
                                       ('one', 'obl', 'Cauchy', 1, 1, dict(b=(0.05, 0.45))), ('obl', 'one', 'Cauchy', 2, 1, dict(a=(0.05, 0.45))),
                                       ('obl', 'rect', 'Ericksen', 3, 1, dict(a=0.3, b=(1.1, 1.7))), ('rect', 'obl', 'Cauchy', 3, 1, dict(a=(1.1, 1.7), b=0.3)),
                                       ('skew', 'rect', 'Cauchy', 1, 1, dict(a=(0.9, 1.2), b=1.1)), ('skew', 'rect', 'Cauchy', 2, 1, dict(a=0.95, b=(1.05, 1.15))), ('hex', 'rect', 'Cauchy', 2, 1, dict(b=(0.85, 1.5))),
                                       ('rect', 'hex', 'Ericksen', 2, 1, dict(a=(0.85, 1.5))), ('one', 'rect', 'Cauchy', 2, 2, dict(b=(0.8, 1.6))),
                                       ('one', 'obl', 'strain', 2, 1, dict(b=(0.05, 0.45))), ('obl', 'rect', 'strain', 3, 1, dict(a=0.3, b=(1.1, 1.7))),
                                       ('rect', 'hex', 'strain', 2, 1, dict(a=(0.85, 1.5)))):
    CASES.append(('real-%s-%s-%s-%d-%d' % (E1, E2, kind, nsol, depth), real, dict(E1=E1, E2=E2, kind=kind, nsol=nsol, depth=depth, box=box), dict(time=60)))
CASES.append(('wrapper', wrapper, {}, dict(time=60)))
