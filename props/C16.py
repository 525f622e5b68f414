"""The direct search keeps the best inequivalent correspondences, in order."""
import itertools
from props.common import mul, det

BOUNDS = ('square parent and rectangular product lattice; every assignment of distances (any reals in 0..10, ties included) to up '
          'to 6 classes of equivalent correspondences, of which up to 3 are offered by the random start and the others by '
          'the enumeration of the search ball (up to 9 vectors, with equivalent, singular and repeated entries); 1 and 2 wanted '
          'solutions, slices of 1, 2, 3 and 100 vectors')
OUTSIDE = ('three dimensional lattices (same bookkeeping); more classes; the random start is scripted to offer the listed '
           'classes, the enumeration of the ball is the subject of another property and replaced by a list')

GA = [[[s, 0], [0, t]] for s in (1, -1) for t in (1, -1)] + [[[0, s], [t, 0]] for s in (1, -1) for t in (1, -1)]
GM = [[[s, 0], [0, t]] for s in (1, -1) for t in (1, -1)]


def canon(l):
    L = [[l[0], l[1]], [l[2], l[3]]]
    best = None
    for a in GA:
        A = mul(a, L)
        for b in GM:
            B = mul(A, b)
            t = (B[0][0], B[0][1], B[1][0], B[1][1])
            if best is None or t > best:
                best = t
    return best


# where the functions with stand-ins are used and defined
USED = ['structrans.marttrans.lat_cor.' + x for x in ('main_direct', 'dist', 'quartic_opt')]
I, S, T, P = (1, 0, 0, 1), (1, 1, 0, 1), (1, 0, 1, 1), (2, 1, 1, 1)
FILL = P
# what the enumeration offers: other classes, equivalent copies, singular matrices
ENUM = {
    'a': [(0, 0, 0, 0), (1, 2, 0, 1), (0, 1, 1, 2), (0, 0, 1, 1), (1, 0, 0, 2), (2, 0, 0, -1), (0, 1, 1, 0), (1, 0, 0, -2)],
    'b': [(0, 0, 0, 0), (0, 1, 1, 0), (1, 1, 1, 1), (1, 0, 0, 2), (0, 2, 1, 0), (2, 1, 0, 1), (0, 1, 2, 1), (1, 1, 0, 1), (1, 3, 0, 1)],
    'c': [(0, 0, 0, 0), (2, 0, 0, 1), (1, 0, 0, 2), (0, 1, 2, 0), (0, -1, 1, 0)],
}


def search(c, init, enum, nsol, sl):
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    np = c.np
    init = {'1': [I], '2': [I, S], '3': [I, S, T]}[init]
    vecs = ENUM[enum]
    classes = []
    for l in list(init) + [v for v in vecs if det([[v[0], v[1]], [v[2], v[3]]]) != 0]:
        k = canon(l)
        if k not in classes:
            classes.append(k)
    ds = [c.real('d%d' % i, 0, 10) for i in range(len(classes))]

    def toints(x):
        return tuple(int(c.value(v)) for v in (x.flatten() if hasattr(x, 'flatten') else x))

    def dist1(x):
        t = toints(x)
        k = canon(t)
        if k in classes:
            return ds[classes.index(k)]
        return 50.0

    def dist(x, *a, **kw):
        return dist1(x)

    def distvec(xs, *a, **kw):
        return np.array([dist1(x) for x in xs])

    def gen(maxlen, dim, x0=None):
        start = 0
        if x0 is not None:
            t = toints(x0)
            start = vecs.index(t)
        return iter([list(v) for v in vecs[start:]])
    script = itertools.cycle([(l[0] - 1, l[1], l[2], l[3] - 1) for l in list(init) + [FILL]])

    def rnd(*a, **kw):
        s = next(script)
        return np.array([[s[0], s[1]], [s[2], s[3]]])

    for name, f in (('quart_min', lambda T: 1.0), ('Cauchy_dist', dist), ('Cauchy_dist_vec', distvec), ('vec_generator', gen)):
        c.stub(name, f, *USED)
    c.patch(np.random, 'random_integers', rnd)
    c.patch(np.random, 'randint', rnd)
    if hasattr(m, '_sols_tostr'):
        # printing is not decided here
        c.patch(m, '_sols_tostr', lambda *b, **k: '')
    sols = m.lat_cor(1, [1.0], 2, [1.0, 1.2], dim=2, nsol=nsol, slice_sz=sl, disp=0)
    c.check(len(sols) >= nsol, 'as many solutions as wanted')
    keys = []
    for s in sols:
        L = np.array(s['l'])
        c.check(c.shape(L) == (2, 2), 'the correspondence is a matrix')
        t = toints(L)
        k = canon(t)
        if not c.check(k in classes, 'the solution was offered'):
            return
        c.check(k not in keys, 'solutions are not equivalent to each other')
        keys.append(k)
        c.eq(s['d'], ds[classes.index(k)], 'the reported distance is the distance of the correspondence', tol=1e-9)
        c.check(det([[t[0], t[1]], [t[2], t[3]]]) > 0, 'the reported correspondence preserves the orientation')
    d = [s['d'] for s in sols]
    for i in range(len(d) - 1):
        c.check(d[i] <= d[i + 1], 'solutions are sorted by distance')
    for i in range(nsol, len(d)):
        c.check(d[i] <= d[nsol - 1], 'more solutions than wanted only if they are equally good')
    if len(d) >= nsol:
        for i, k in enumerate(classes):
            if k not in keys:
                c.check(ds[i] >= d[nsol - 1], 'no better correspondence is missed')


def strain(c, which):
    """the reported correspondence and stretch belong to the solution"""
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    np = c.np
    c.int_mode('fork')
    a, r = c.real('a', 0.75, 0.95), c.real('r', 1.1, 1.4)
    sol = {'I': (1, 0, 0, 1), 'S': (1, 1, 0, 1), 'D': (1, 0, 0, 2), 'P': (1, 1, -1, 1)}[which]

    # centred rectangular parent: the conventional and the primitive cell differ
    A = c.mod('structrans').BravaisLattice(3, [1.0, 1.5], dim=2)
    M = c.mod('structrans').BravaisLattice(2, [a, r], dim=2)

    def toints(x):
        return tuple(int(c.value(v)) for v in (x.flatten() if hasattr(x, 'flatten') else x))
    ga = [[[int(c.value(x)) for x in q] for q in g] for g in A.lattice_group().matrices()]
    gm = [[[int(c.value(x)) for x in q] for q in g] for g in M.lattice_group().matrices()]
    L = [[sol[0], sol[1]], [sol[2], sol[3]]]
    orbit = [mul(mul(g, L), h) for g in ga for h in gm]
    orbit = [(X[0][0], X[0][1], X[1][0], X[1][1]) for X in orbit]

    def dist1(x):
        t = toints(x)
        return 0.25 if t in orbit else 50 + sum(v * v for v in t)
    script = itertools.cycle(itertools.product((0, 1, -1), repeat=4))

    def rnd(*args, **kw):
        s = next(script)
        return np.array([[s[0], s[1]], [s[2], s[3]]])
    for name, f in (('quart_min', lambda T: 1.0), ('Cauchy_dist', lambda x, *b, **k: dist1(x)),
                    ('Cauchy_dist_vec', lambda xs, *b, **k: np.array([dist1(x) for x in xs])),
                    ('vec_generator', lambda *b, **k: iter([list(sol)]))):
        c.stub(name, f, *USED)
    c.patch(np.random, 'random_integers', rnd)
    c.patch(np.random, 'randint', rnd)
    if hasattr(m, '_sols_tostr'):
        c.patch(m, '_sols_tostr', lambda *b, **k: '')
    sols = m.lat_cor(3, [1.0, 1.5], 2, [a, r], dim=2, nsol=1, disp=0)
    c.check(len(sols) >= 1, 'a solution')
    s = sols[0]
    EA, EM = A.base(), M.base()
    # F E_A L = E_M,  U^2 = F^T F,  C_A cor = L C_M in the conventional bases
    L = np.array(s['l'])
    F = EM.dot(c.la.inv(EA.dot(L)))
    U = np.array(s['u'])
    c.eq(U.dot(U), F.T.dot(F), 'the stretch is the root of F^T F', tol=1e-7)
    c.eq(U, U.T, 'the stretch is symmetric', tol=1e-7)
    BA, BM = A.conventional_base(), M.conventional_base()
    c.eq(F.dot(BA).dot(np.array(s['cor'])), BM, 'the correspondence maps the conventional cells', tol=1e-7)
    lam = s['lams']
    c.check(lam[0] <= lam[1], 'the principal stretches are sorted')
    c.eq(lam[0] + lam[1], U[0][0] + U[1][1], 'the principal stretches are the eigenvalues of the stretch', tol=1e-7)
    c.eq(lam[0] * lam[1], U[0][0] * U[1][1] - U[0][1] * U[1][0], 'the principal stretches are the eigenvalues of the stretch', tol=1e-7)


CASES = []
for i, e, n, sl, tier in (('2', 'a', 1, 100, 'quick'), ('2', 'a', 1, 1, 'quick'), ('2', 'b', 1, 2, 'quick'), ('1', 'b', 1, 3, 'quick'),
                          ('3', 'c', 1, 2, 'quick'), ('2', 'c', 2, 100, 'quick'), ('2', 'c', 2, 2, 'quick'), ('2', 'a', 2, 3, 'quick'),
                          ('3', 'b', 2, 2, 'thorough'), ('3', 'a', 1, 3, 'thorough'), ('3', 'a', 2, 1, 'thorough')):
    CASES.append(('search-%s%s-%d-%d' % (i, e, n, sl), search, dict(init=i, enum=e, nsol=n, sl=sl),
                  dict(time=90, paths=4000, tier=tier)))
CASES += [('strain-' + k, strain, dict(which=k), dict(time=60)) for k in 'ISDP']
