"""The search over sublattices merges the solutions of all sublattices, in whatever order they arrive."""
import itertools
from props.common import mul, det, gram
from props.C18 import flat, unflat, orbit, toints
from props.C29 import adj, diags, same_lattice

BOUNDS = ('merging: up to 4 inequivalent sublattices with up to 3 solutions each, every assignment of real distances (ties included), 1 to 3 wanted solutions, '
          'parallel tasks that get ready in every order with 1 to 3 workers, each task polled unready at most once in a row; sublattice sizes: every volume ratio 0.55..6.4 and every threshold '
          '0.02..0.45 (borders included for the ratios 2 and 4), plane lattices, and 3D lattices with ratios 0.6..3.4; divided reduction; reported correspondence, stretch and strains for any product lattice '
          'parameters in the boxes; complete searches with real Cauchy distances for one-parameter families of plane lattices, competitors with entries up to 2')
OUTSIDE = 'more sublattices and solutions; the number of polls of one task in a row; volume ratios below one half of a primitive cell'

MOD = 'structrans.marttrans.lat_cor.main_hnf'
LO = 'structrans.marttrans.lat_cor.lat_opt'


def quiet(c, m):
    if hasattr(m, '_sols_tostr'):
        c.patch(m, '_sols_tostr', lambda *b, **k: '')


def nostrain(c, n):
    """the strains are decided by other cases"""
    I = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for f in ('eig', 'eigh'):
        c.patch(c.la, f, lambda C, *a, **k: (c.np.array([1.0] * n), c.np.array(I)))
    for f in ('eigvals', 'eigvalsh'):
        c.patch(c.la, f, lambda C, *a, **k: c.np.array([1.0] * n))


def groups(c, A, M):
    return [[[[int(c.value(x)) for x in r] for r in q] for q in X.special_lattice_group().matrices()] for X in (A, M)]


def hnf_of(c, EA, E1):
    """the integer matrix H with E1 = E_A H"""
    H = c.la.inv(EA).dot(E1)
    return [[int(c.value(c.np.rint(x))) for x in r] for r in H]


class Task(object):
    def __init__(self, c, log, fn, arg):
        self.c, self.log, self.res, self.polls = c, log, fn(arg), 0
        self.done = False

    def ready(self):
        if not self.done:
            self.polls += 1
            # other tasks may be ready before this one
            self.done = self.polls > 1 or bool(self.c.choice('ready%d' % next(self.log['n']), 2))
        return self.done

    def get(self, timeout=None):
        self.done = True
        self.log['open'] -= 1
        return self.res

    def wait(self, timeout=None):
        self.done = True

    def successful(self):
        return True


def run(c, A, M, ratio, sols, nsol, workers, extra=None):
    """lat_cor of lattices (type, parameters) with scripted results of the shear search"""
    m = c.mod(MOD)
    np = c.np
    quiet(c, m)
    BL = c.mod('structrans').BravaisLattice
    LA, LM = BL(*A, dim=2), BL(*M, dim=2)
    EA = LA.base()
    seen = []
    offers = []

    def lat_opt(E1, E2, **kw):
        H = hnf_of(c, EA, E1)
        i = len(seen)
        seen.append(H)
        ls, ds = sols(i, H)
        offers.extend((H, l, d) for l, d in zip(ls, ds))
        return {'lopt': [np.array(unflat(l, 2)) for l in ls], 'dopt': list(ds)}
    c.stub('lat_opt', lat_opt, MOD, LO)
    kw = dict(dim=2, nsol=nsol, disp=0)
    log = {'open': 0, 'n': itertools.count()}
    if workers:
        def par(args):
            args = list(args)
            log['open'] += 1
            c.check(log['open'] <= workers, 'not more tasks at a time than workers')

            def task(a):
                E1, E2, options, ih = a
                opts = dict(options)
                opts.pop('ihnf', None)
                return ih, lat_opt(E1, E2, **opts)
            return Task(c, log, task, args[0])
        kw.update(lat_opt_par=par, poolsize=workers)
    kw.update(extra or {})
    got = m.lat_cor(A[0], A[1], M[0], M[1], **kw)
    return got, seen, offers, LA, LM


# inequivalent unimodular matrices to be offered
LE3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
LS = [(1, 0, 0, 1), (1, 3, 0, 1), (1, 5, 0, 1)]


def merge(c, lat, ratio, counts, nsol, workers):
    A, M = {'rect': ((2, [1.0, 1.3]), (2, [1.0, 1.3 * ratio])), 'sq': ((1, [1.0]), (2, [1.0, 1.0 * ratio])),
            'obl': ((5, [1.0, 1.2, 100]), (5, [1.0, 1.2 * ratio, 100]))}[lat]
    ds = []
    for i, k in enumerate(counts):
        d = [c.real('d%d%d' % (i, j), 0, 10) for j in range(k)]
        for x, y in zip(d, d[1:]):
            c.assume(x <= y)
        ds.append(d)
    order = []

    def sols(i, H):
        k = ds[i] if i < len(ds) else [20.0 + i]
        return LS[:len(k)], k
    got, seen, offers, LA, LM = run(c, A, M, ratio, sols, nsol, workers)
    G1, G2 = groups(c, LA, LM)
    c.check(len(set(flat(H) for H in seen)) == len(seen), 'every sublattice is searched once')
    offered = {}
    for H, l, d in offers:
        offered[orbit(G1, flat(mul(H, unflat(l, 2))), G2, 2)] = d
    keys = []
    for s in got:
        t = flat(mul(unflat(toints(c, s['h']), 2), unflat(toints(c, s['l']), 2)))
        k = orbit(G1, t, G2, 2)
        if not c.check(k in offered, 'the solution was offered by its sublattice'):
            return
        c.check(k not in keys, 'solutions are not equivalent to each other')
        keys.append(k)
        c.eq(s['d'], offered[k], 'the distance of a solution is that of its correspondence', tol=1e-9)
    d = [s['d'] for s in got]
    for i in range(len(d) - 1):
        c.check(d[i] <= d[i + 1], 'solutions are sorted by distance')
    for i in range(nsol, len(d)):
        c.check(d[i] <= d[nsol - 1], 'more solutions than wanted only if they are equally good')
    if len(d) < nsol:
        c.check(len(d) == len(offered), 'as many solutions as wanted if there are that many')
    else:
        c.check(c.And(*[offered[k] >= d[nsol - 1] for k in offered if k not in keys]), 'no better correspondence is missed')


def sizes(c, dim, box, th, hi, lat=None):
    """exactly the sublattices whose index is within the threshold of the volume ratio are searched"""
    m = c.mod(MOD)
    np = c.np
    quiet(c, m)
    c.int_mode('fork')
    exact = not isinstance(box, tuple)
    a = float(box) if exact else c.real('a', *box)
    t = c.real('t', *th) if isinstance(th, tuple) else th
    BL = c.mod('structrans').BravaisLattice
    ID = lat or 1
    A = BL(ID, [1.0], dim=dim)
    M = (2, [1.0, a]) if dim == 2 else (1, [a])
    mult = {(2, 1): 1, (3, 1): 1, (3, 2): 4, (3, 3): 2}[dim, ID]
    r = (a if dim == 2 else a * a * a) * mult
    near = [k for k in range(0, hi + 1)]
    EA = A.base()
    seen = []

    def lat_opt(E1, E2, **kw):
        H = hnf_of(c, EA, E1)
        seen.append(H)
        return {'lopt': [np.array([[1 if i == j else 0 for j in range(dim)] for i in range(dim)])], 'dopt': [1.0 + len(seen)]}
    c.stub('lat_opt', lat_opt, MOD, LO)
    nostrain(c, dim)
    m.lat_cor(ID, [1.0], M[0], M[1], dim=dim, nsol=1, disp=0, vol_th=t)
    # away from the borders, where rounding decides; a power of two has exact borders
    for k in near if not exact else ():
        for s in (1 - t, 1 + t, 1):
            b = s * r - k
            c.assume(c.Or(b >= 1e-4, b <= -1e-4))
        b = r - k - 0.5
        c.assume(c.Or(b >= 1e-4, b <= -1e-4))
    got = set(abs(det(H)) for H in seen)
    inside = [c.And(k <= (1 + t) * r, k >= (1 - t) * r) for k in near]
    any_in = c.Or(*inside[1:])
    for k in near[1:]:
        nearest = c.And(r - k <= 0.5, k - r <= 0.5)
        want = c.Or(inside[k], c.And(c.Not(any_in), nearest))
        c.check(want if k in got else c.Not(want), 'the sizes within the volume threshold are searched, or the nearest one')
    c.check(all(1 <= k <= hi for k in got), 'the sizes within the volume threshold are searched, or the nearest one')
    G = groups(c, A, A)[0]
    for k in got:
        S = [H for H in seen if abs(det(H)) == k]
        for D in diags(k, dim):
            for F in forms(D):
                if not any(same_lattice(H, mul(g, F)) for H in S for g in G):
                    c.fail('a sublattice of the size was not searched')
                    return
        for i in range(len(S)):
            for j in range(i):
                if any(same_lattice(S[i], mul(g, S[j])) for g in G):
                    c.fail('equivalent sublattices were both searched')
                    return


def forms(D):
    n = len(D)
    pos = [(i, j) for i in range(n) for j in range(i)]
    for v in itertools.product(*[range(-(D[i] - 1), 1) for i, j in pos]):
        H = [[D[i] if i == j else 0 for j in range(n)] for i in range(n)]
        for (i, j), x in zip(pos, v):
            H[i][j] = x
        yield H


def divided(c, ratio, cpus):
    """the reduction divided among workers searches the same orbits"""
    import multiprocessing
    m = c.mod(MOD)
    c.private(MOD, 'reduce_hnfs')
    c.patch(multiprocessing, 'cpu_count', lambda: cpus)
    calls = []

    def par(parts):
        out = []
        for p in parts:
            calls.append(len(p[0]))
            out.append(m.reduce_hnfs(p))
        return out
    x = c.real('x', 0, 1)
    got, seen, offers, LA, LM = run(c, (1, [1.0]), (2, [1.0, 1.0 * ratio]), ratio, lambda i, H: ([LS[0]], [x + i]), 1, 0,
                                    dict(reduce_hnfs_par=par, vol_th=0.01))
    G1, G2 = groups(c, LA, LM)
    c.check(len(calls) == 0 or sum(calls) == sum(1 for D in diags(ratio, 2) for F in forms(D)), 'the parts make up the whole list')
    for D in diags(ratio, 2):
        for F in forms(D):
            if sum(1 for H in seen if any(same_lattice(H, mul(g, F)) for g in G1)) != 1:
                c.fail('every orbit of sublattices is searched exactly once')
                return
    c.eq(got[0]['d'], x, 'the best solution of all sublattices', tol=1e-9)


def report(c, ia, pa, im, pm, l, dim=2, box=None):
    """the reported correspondence, stretch and strains belong to the solution"""
    m = c.mod(MOD)
    np = c.np
    c.int_mode('fork')
    p = {k: c.real(k, *v) for k, v in (box or {}).items()}
    BL = c.mod('structrans').BravaisLattice
    A = BL(ia, pa, dim=dim)
    pm = [p[v[-1]] * float(v[:-1] or 1) if isinstance(v, str) else v for v in pm]
    M = BL(im, pm, dim=dim)
    quiet(c, m)
    EA, EM = A.base(), M.base()
    L = np.array(unflat(l, dim))
    c.stub('lat_opt', lambda E1, E2, **kw: {'lopt': [L.copy()], 'dopt': [0.5]}, MOD, LO)
    sols = m.lat_cor(ia, pa, im, pm, dim=dim, nsol=2, disp=0, vol_th=0.3)
    c.check(len(sols) >= 1, 'a solution')
    BA, BM = A.conventional_base(), M.conventional_base()
    for s in sols:
        H, K = np.array(s['h']), np.array(s['l'])
        c.eq(K, L, 'the matrix of the search is reported', tol=1e-9)
        F = EM.dot(c.la.inv(EA.dot(H).dot(K)))
        U = np.array(s['u'])
        c.eq(U.dot(U), F.T.dot(F), 'the stretch is the root of F^T F', tol=1e-7)
        c.eq(U, U.T, 'the stretch is symmetric', tol=1e-7)
        c.eq(F.dot(BA).dot(np.array(s['cor'])), BM, 'the correspondence maps the conventional cells', tol=1e-7)
        lam = s['lams']
        for i in range(dim - 1):
            c.check(lam[i] <= lam[i + 1], 'the principal stretches are sorted')
        c.eq(sum(lam), sum(U[i][i] for i in range(dim)), 'the principal stretches are the eigenvalues of the stretch', tol=1e-7)
        c.eq(sum(x * x for x in lam), sum(U[i][j] * U[j][i] for i in range(dim) for j in range(dim)), 'the principal stretches are the eigenvalues of the stretch', tol=1e-7)
        if dim == 3:
            c.eq(lam[0] * lam[1] * lam[2], det([[x for x in r] for r in U]), 'the principal stretches are the eigenvalues of the stretch', tol=1e-7)


def best(c, ia, pa, im, pm, nsol, depth, box):
    """complete search with the real distances: no correspondence with small entries is better than the reported ones"""
    m = c.mod(MOD)
    quiet(c, m)
    x = c.real('x', *box)
    pm = [x if v == 'x' else v for v in pm]
    pa = [x if v == 'x' else v for v in pa]
    A, M = [c.mod('structrans').BravaisLattice(i, p, dim=2) for i, p in ((ia, pa), (im, pm))]
    nostrain(c, 2)
    sols = m.lat_cor(ia, pa, im, pm, dim=2, nsol=nsol, disp=0, vol_th=0.3, miniter=depth, maxiter=depth)
    G1, G2 = groups(c, A, M)
    ga, gb = gram(A.base()), gram(M.base())
    idet = 1 / (gb[0][0] * gb[1][1] - gb[0][1] * gb[0][1])
    gi = [[gb[1][1] * idet, -gb[0][1] * idet], [-gb[0][1] * idet, gb[0][0] * idet]]

    def f(t):
        L = unflat(t, 2)
        P = mul(mul([[L[0][0], L[1][0]], [L[0][1], L[1][1]]], mul(ga, L)), gi)
        return sum(P[i][j] * P[j][i] for i in range(2) for j in range(2)) - 2 * (P[0][0] + P[1][1]) + 2
    keys, ds = [], []
    for s in sols:
        t = flat(mul(unflat(toints(c, s['h']), 2), unflat(toints(c, s['l']), 2)))
        c.check(det(unflat(t, 2)) > 0, 'correspondences preserve the orientation')
        k = orbit(G1, t, G2, 2)
        c.check(k not in keys, 'solutions are not equivalent to each other')
        keys.append(k)
        ds.append(f(t))
        c.eq(s['d'], ds[-1], 'the distance of a solution is that of its correspondence', tol=1e-6)
    for i in range(len(ds) - 1):
        c.check(ds[i] <= ds[i + 1] + 1e-6, 'solutions are sorted by distance')
    c.check(len(ds) >= nsol, 'as many solutions as wanted')
    va = A.base()[0][0] * A.base()[1][1] - A.base()[0][1] * A.base()[1][0]
    vm = M.base()[0][0] * M.base()[1][1] - M.base()[0][1] * M.base()[1][0]
    seen = set(keys)
    conds = []
    for t in itertools.product(range(-2, 3), repeat=4):
        # the search keeps the orientation
        k = det(unflat(t, 2))
        if k <= 0:
            continue
        o = orbit(G1, t, G2, 2)
        if o in seen:
            continue
        seen.add(o)
        inside = c.And(k * va <= 1.29 * vm, k * va >= 0.71 * vm)
        if inside is False:
            continue
        conds.append(c.implies(inside, f(t) >= ds[nsol - 1] - 1e-6))
    c.check(c.And(*conds), 'no correspondence with small entries is closer')


CASES = []
for lat, ratio, counts, nsol, w in (('sq', 2, (2, 2), 1, 0), ('sq', 2, (2, 2), 2, 0), ('rect', 2, (2, 1, 2), 2, 0), ('obl', 3, (1, 1, 2, 1), 2, 0), ('obl', 2, (3, 1, 1), 3, 0),
                                    ('sq', 3, (2, 2, 1), 2, 0), ('rect', 2, (1, 1, 1), 1, 2), ('rect', 2, (2, 1, 1), 2, 2), ('obl', 3, (1, 1, 1, 1), 1, 3), ('sq', 2, (2, 2), 2, 1),
                                    ('sq', 2, (2, 2), 2, 3), ('rect', 2, (1, 1, 1), 4, 2), ('obl', 3, (1, 1, 1, 1), 1, 2), ('rect', 2, (1, 1, 1), 1, 1)):
    CASES.append(('merge-%s-%d-%s-%d-%d' % (lat, ratio, ''.join(map(str, counts)), nsol, w), merge,
                  dict(lat=lat, ratio=ratio, counts=counts, nsol=nsol, workers=w), dict(time=90)))
for lat, ratio, counts, nsol, w in (('obl', 3, (2, 1, 1, 1), 2, 2), ('obl', 2, (2, 2, 2), 2, 0), ('obl', 2, (2, 2, 1), 2, 3)):
    CASES.append(('merge-%s-%d-%s-%d-%d' % (lat, ratio, ''.join(map(str, counts)), nsol, w), merge,
                  dict(lat=lat, ratio=ratio, counts=counts, nsol=nsol, workers=w), dict(time=500, paths=20000, tier='thorough')))
CASES += [('sizes-2a', sizes, dict(dim=2, box=(0.55, 3.2), th=0.1, hi=5), dict(time=60)),
          ('sizes-2b', sizes, dict(dim=2, box=(0.55, 6.4), th=0.3, hi=9), dict(time=60)),
          ('sizes-2c', sizes, dict(dim=2, box=(0.55, 2.4), th=(0.02, 0.45), hi=4), dict(time=90)),
          ('sizes-2d', sizes, dict(dim=2, box=(2.4, 4.2), th=(0.02, 0.45), hi=7), dict(time=90)),
          ('sizes-2e', sizes, dict(dim=2, box=4, th=(0.05, 0.6), hi=6), dict(time=60)),
          ('sizes-2f', sizes, dict(dim=2, box=2, th=(0.05, 0.6), hi=3), dict(time=60)),
          ('sizes-3a', sizes, dict(dim=3, box=(0.85, 1.5), th=0.1, hi=4), dict(time=90)),
          ('sizes-3f', sizes, dict(dim=3, box=(0.52, 0.95), th=0.1, hi=4, lat=2), dict(time=90)),
          ('divided-12-1', divided, dict(ratio=12, cpus=1), {}), ('divided-24-2', divided, dict(ratio=24, cpus=2), {}),
          ('divided-5-4', divided, dict(ratio=5, cpus=4), {}), ('divided-32-2', divided, dict(ratio=32, cpus=2), {}),
          ('divided-36-3', divided, dict(ratio=36, cpus=3), {})]
AB = dict(a=(0.75, 0.95), b=(1.05, 1.4))
P3 = dict(a=(0.9, 0.97), b=(0.985, 1.01), c=(1.03, 1.1))
CASES += [('report-%s' % k, report, dict(ia=ia, pa=pa, im=im, pm=pm, l=l, box=AB if str(pm[-1])[-1] == 'b' else dict(a=AB['a'])), dict(time=90)) for k, ia, pa, im, pm, l in
          (('sq', 1, [1.0], 2, ['a', 'b'], (1, 1, 0, 1)), ('crect', 3, [1.0, 1.9], 2, ['a', 'b'], (1, 0, 0, 1)),
           ('centred', 2, [1.0, 1.2], 2, ['a', '2.6a'], (1, 0, 0, 1)), ('hex', 4, [1.0], 2, ['a', 'b'], (1, 0, 1, 1)),
           ('sq-crect', 1, [1.0], 3, ['1.4a', 1.6], (1, -1, 1, 0)), ('crect2', 3, [1.4, 1.5], 3, ['1.4a', '1.4b'], (1, 0, 0, 1)))]
CASES += [('report3-%s' % k, report, dict(ia=ia, pa=pa, im=im, pm=pm, l=l, dim=3, box=b), dict(time=120, tier=t)) for k, ia, pa, im, pm, l, b, t in
          (('cP-oP', 1, [1.0], 8, ['b', 'c', 'a'], flat(LE3), P3, 'quick'), ('cP-oP2', 1, [1.0], 8, ['c', 'a', 'b'], flat(LE3), P3, 'quick'),
           ('cF-tI', 2, [1.0], 7, ['0.7071a', 'c'], (0, 0, -1, 0, 1, 1, 1, 0, 0), dict(a=P3['a'], c=P3['c']), 'quick'),
           ('cI-oF', 3, [1.0], 10, ['1.4142b', 'c', '1.4142a'], (1, 0, 1, 0, 1, 0, 0, 0, 1), P3, 'quick'),
           ('cP-oC', 1, [1.0], 9, ['1.4142c', '1.4142a', 'b'], (0, -1, 0, 1, 0, 0, 0, 0, 1), P3, 'quick'),
           ('cF-oF', 2, [1.0], 10, ['a', 'c', 'b'], flat(LE3), P3, 'quick'),
           ('cI-oI', 3, [1.0], 11, ['b', 'a', 'c'], flat(LE3), P3, 'quick'),
           ('hP-mP', 4, [1.0, 1.5], 12, ['a', '1.5b', 'c', 118.0], (1, 0, 0, 0, 0, -1, 0, 1, 0), P3, 'thorough'),
           ('hP-mP1', 4, [1.0, 1.5], 12, ['a', 1.5, 1.04, 118.0], (1, 0, 0, 0, 0, -1, 0, 1, 0), dict(a=P3['a']), 'quick'),
           ('cP-oP-shear', 1, [1.0], 8, ['b', 'c', 'a'], (1, 1, 0, 0, 1, 0, 0, 0, 1), P3, 'quick'))]
CASES += [('best-%s' % k, best, dict(ia=ia, pa=pa, im=im, pm=pm, nsol=n, depth=d, box=b), dict(time=120)) for k, ia, pa, im, pm, n, d, b in
          (('sq-rect', 1, [1.0], 2, [1.0, 'x'], 1, 2, (0.8, 1.2)), ('sq-rect2', 1, [1.0], 2, [1.0, 'x'], 2, 2, (1.6, 2.2)),
           ('rect-obl', 2, [1.0, 'x'], 5, [1.0, 1.2, 80], 1, 2, (1.1, 1.4)), ('hex-rect', 4, [1.0], 2, ['x', 1.8], 1, 1, (0.95, 1.05)))]
CASES += [('report-centred2', report, dict(ia=2, pa=[1.0, 1.2], im=2, pm=['a', '2b'], l=(1, 0, 0, 1), box=AB), dict(time=150, tier='thorough')),
          ('best-hex-crect', best, dict(ia=4, pa=[1.0], im=3, pm=['x', 1.8], nsol=1, depth=2, box=(0.9, 1.1)), dict(time=120, tier='thorough')),
          ('best-sq-rect3', best, dict(ia=1, pa=[1.0], im=2, pm=[1.0, 'x'], nsol=3, depth=3, box=(1.6, 2.2)), dict(time=120, tier='thorough'))]
