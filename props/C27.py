"""The search ball of the direct search is large enough."""
import itertools
from props.common import mul, tr, det
from props.C16 import USED, canon, I, S, T, P

BOUNDS = ('any real lattice parameters of rectangular, square and oblique plane lattices and any real correspondence for the quartic form; 3D: '
          'listed lattice pairs with any real correspondence; radii: any lower bound alpha in 0.01..10 of the form and any '
          'distances in 0..10 of up to 4 classes of correspondences')
OUTSIDE = ('that the numerical minimiser finds the global minimum of the form (not decidable by this technique: iterative '
           'floating point optimisation from random starts)')

PAIRS3 = [(1, [1.0], 1, [1.25]), (2, [2.0], 3, [2.0]), (6, [1.0, 1.5], 8, [1.0, 1.25, 1.5])]


def _scripted(c, m, dim, dist1, gen, alpha, init):
    np = c.np
    script = itertools.cycle(init)

    def rnd(*a, **kw):
        return np.array(next(script))
    for name, f in (('quart_min', alpha), ('Cauchy_dist', lambda x, *b, **k: dist1(x)),
                    ('Cauchy_dist_vec', lambda xs, *b, **k: np.array([dist1(x) for x in xs])), ('vec_generator', gen)):
        c.stub(name, f, *USED)
    c.patch(np.random, 'random_integers', rnd)
    c.patch(np.random, 'randint', rnd)
    if hasattr(m, '_sols_tostr'):
        c.patch(m, '_sols_tostr', lambda *b, **k: '')


def form(c, kind):
    """the form handed to the minimiser is |F F^T|^2 for F = E_A L E_M^-1"""
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    np = c.np
    if kind in ('rect', 'oblique', 'centred'):
        dim = 2
        a, b = c.real('a', 0.8, 1.2), c.real('b', 1.3, 1.8)
        args = {'rect': (2, [1.0, 1.5], 2, [a, b]), 'oblique': (2, [a, b], 5, [1.0, 1.25, 75]), 'centred': (3, [a, b], 1, [1.0])}[kind]
    else:
        dim = 3
        args = PAIRS3[kind]
    got = []

    class Stop(Exception):
        pass

    def alpha(T):
        got.append(T)
        raise Stop()
    c.stub('quart_min', alpha, *USED)
    try:
        m.lat_cor(*args, dim=dim, disp=0)
    except Stop:
        pass
    if not c.check(len(got) == 1, 'the form is minimised once'):
        return
    B = c.mod('structrans').BravaisLattice
    EA, EM = B(args[0], args[1], dim=dim).base(), B(args[2], args[3], dim=dim).base()
    x = c.vec('x', dim * dim, -2, 2)
    L = [[x[dim * i + j] for j in range(dim)] for i in range(dim)]
    F = mul(mul(EA, L), c.la.inv(EM))
    G = mul(F, tr(F))
    want = sum(v * v for r in G for v in r)
    c.eq(np.array(got[0]).dot(x).dot(x).dot(x).dot(x), want, 'the minimised form is |F F^T|^2', tol=1e-6)


def radius(c, init, vecs, sl, nsol=1):
    """every radius satisfies alpha r^4 >= (sqrt(dim) + sqrt(d))^2 for the current worst distance d"""
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    np = c.np
    al = c.real('alpha', 0.01, 10)
    cls = []
    for l in list(init) + list(vecs):
        if canon(l) not in cls:
            cls.append(canon(l))
    ds = [c.real('d%d' % i, 0, 10) for i in range(len(cls))]
    offered = []
    radii = []

    def toints(x):
        return tuple(int(c.value(v)) for v in (x.flatten() if hasattr(x, 'flatten') else x))

    def dist1(x):
        k = canon(toints(x))
        if k in cls:
            if cls.index(k) not in offered:
                offered.append(cls.index(k))
            return ds[cls.index(k)]
        return 50.0

    def gen(maxlen, dim, x0=None):
        radii.append((maxlen, list(offered)))
        start = 0
        if x0 is not None:
            t = toints(x0)
            start = vecs.index(t) if t in vecs else 0
        return iter([list(v) for v in vecs[start:]])
    shifts = [[[l[0] - 1, l[1]], [l[2], l[3] - 1]] for l in list(init) + [P]]
    _scripted(c, m, 2, dist1, gen, lambda T: al, shifts)
    m.lat_cor(1, [1.0], 2, [1.0, 1.2], dim=2, nsol=nsol, slice_sz=sl, disp=0)
    c.check(len(radii) >= 1, 'the ball is searched')
    for r, off in radii:
        # the worst of the nsol best offered so far
        c.check(len(off) >= nsol, 'the start offers enough')
        left = [ds[k] for k in off]
        for _ in range(nsol):
            i = 0
            for k in range(1, len(left)):
                if left[k] < left[i]:
                    i = k
            d = left.pop(i)
        # any L with |F F^T - I|^2 <= d has alpha |L|^4 <= |F F^T|^2 <= (sqrt(2) + sqrt(d))^2
        c.check(al * r * r * r * r >= (np.sqrt(2) + np.sqrt(d)) * (np.sqrt(2) + np.sqrt(d)) - 1e-6,
                'no correspondence outside of the searched ball can be closer')


def radius3(c):
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    np = c.np
    al = c.real('alpha', 0.01, 10)
    d0 = c.real('d', 0, 10)
    got = []

    class Stop(Exception):
        pass

    def gen(maxlen, dim, x0=None):
        got.append(maxlen)
        raise Stop()
    eye3 = (1, 0, 0, 0, 1, 0, 0, 0, 1)

    def dist1(x):
        t = [int(c.value(v)) for v in (x.flatten() if hasattr(x, 'flatten') else x)]
        # signed permutations are the class of the identity
        return d0 if sum(v * v for v in t) == 3 and max(abs(v) for v in t) == 1 else 50.0
    shifts = [[[0, 0, 0]] * 3, [[0, 1, 0], [0, 0, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 1], [0, 0, 0]]]
    _scripted(c, m, 3, dist1, gen, lambda T: al, shifts)
    try:
        m.lat_cor(8, [1.0, 1.25, 1.5], 8, [1.0, 1.25, 1.5], dim=3, nsol=1, disp=0)
    except Stop:
        pass
    if not c.check(len(got) == 1, 'the ball is searched'):
        return
    r = got[0]
    c.check(al * r * r * r * r >= (np.sqrt(3) + np.sqrt(d0)) * (np.sqrt(3) + np.sqrt(d0)) - 1e-6,
            'no correspondence outside of the searched ball can be closer')


CASES = [('form-%s' % k, form, dict(kind=k), dict(time=60)) for k in ('rect', 'oblique', 'centred', 0, 1, 2)]
CASES += [('radius-1', radius, dict(init=[I], vecs=[(1, 0, 0, 2)], sl=100), dict(time=60)),
          ('radius-2', radius, dict(init=[I, S], vecs=[(0, 1, 1, 0), (1, 0, 0, 2), (1, 2, 0, 1)], sl=1), dict(time=60)),
          ('radius-2sol', radius, dict(init=[I, S], vecs=[(1, 0, 0, 2)], sl=100, nsol=2), dict(time=60)),
          ('radius-2sol1', radius, dict(init=[I, S], vecs=[(1, 0, 0, 2), (1, 2, 0, 1)], sl=1, nsol=2), dict(time=60)),
          ('radius-3', radius3, {}, dict(time=60))]
