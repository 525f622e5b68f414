"""Objects keep their values: changing the arrays given to or returned by an object does not change its answers."""
from props.common import det
from props.C20 import generic, spectrum, variant, stretch, AXES

BOUNDS = ('lattices with any real base with entries in +-5 (2D, 3D), all 19 Bravais types with any real lengths in 0.5..5, groups of two to four matrices '
          'with any real entries in +-3, transformations and twin systems of cubic to tetragonal stretches with any entries in 0.85..1.2, twin pairs of '
          'compound and Type I/II families; every input and every returned value changed completely and recursively, once, before or after the '
          'answers were asked for the first time')
OUTSIDE = ('values shared between objects on purpose (the MatrixGroup given to a Martensite or TwinSystem); Microstructure and UnitCell, which are mutable '
           'records; changing private attributes')


def _isarr(x):
    return hasattr(type(x), 'ndim') and hasattr(type(x), 'shape') and len(x.shape) > 0


def scramble(c, x):
    """change everything that can be changed"""
    if _isarr(x):
        sh = tuple(int(s) for s in x.shape)
        if len(sh) == 1:
            for i in range(sh[0]):
                if isinstance(x[i], list):
                    x[i].append(7)
                else:
                    x[i] = 17 + i
        else:
            for i in range(sh[0]):
                scramble(c, x[i])
    elif isinstance(x, list):
        for y in x:
            scramble(c, y)
        while len(x):
            x.pop()
        x.append(19)
    elif isinstance(x, tuple):
        for y in x:
            scramble(c, y)
    elif hasattr(type(x), 'matrices'):
        scramble(c, x.matrices())


def flat(x):
    """tree of nested lists of numbers"""
    if hasattr(type(x), 'matrices'):
        return ['group'] + flat(x.matrices())
    if hasattr(type(x), 'Uj'):
        return ['pair', flat(x.Ui()), flat(x.Uj())]
    if _isarr(x) or isinstance(x, (list, tuple)):
        return [flat(x[i]) for i in range(len(x))]
    return x


def same(c, a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            return False
        return c.And(*[same(c, p, q) for p, q in zip(a, b)])
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or (isinstance(a, (str, bool)) and type(a) == type(b) and a == b)
    return c.close(a, b, 1e-9)


def answer(f):
    try:
        return flat(f())
    except AttributeError:
        return 'AttributeError'


def isolation(c, make, accessors, ninputs):
    """make() -> (object, inputs): called twice, the second object is left alone"""
    A, ins = make()
    B, _ = make()
    acc = accessors(c, A)
    ref = accessors(c, B)
    names = sorted(acc)
    if c.pick('asked', [True, False]):
        for n in names:
            answer(acc[n])
    k = c.pick('changed', list(range(ninputs)) + names)
    if isinstance(k, int):
        scramble(c, ins[k])
    else:
        try:
            scramble(c, acc[k]())
        except AttributeError:
            pass
    for n in names:
        x, y = answer(acc[n]), answer(ref[n])
        if not c.check(same(c, x, y), '%s() after the change of %s' % (n, k if isinstance(k, str) else 'input %d' % k)):
            return


def lattice(c, n, aslist):
    m = c.mod('structrans')
    E = [[c.real('e%d%d' % (i, j), -5, 5) for j in range(n)] for i in range(n)]
    d = det(E)
    c.assume(c.Or(d >= 0.1, d <= -0.1))

    def make():
        X = [list(r) for r in E] if aslist else c.np.array(E)
        return m.Lattice(X), [X]
    p = [1, 2, 2][:n]
    isolation(c, make, lambda c, L: dict(base=L.base, getbase=L.getbase, dimension=L.dimension), 1)


def groups(c, ID, dim):
    """the cached groups of a lattice (a given shape, any scale)"""
    m = c.mod('structrans')
    a = c.real('a', 0.5, 5)
    P = {(3, 1): [1], (3, 4): [1, 1.7], (3, 8): [1, 1.3, 1.7], (3, 7): [1, 1.7], (2, 1): [1], (2, 4): [1], (2, 2): [1, 1.3]}[dim, ID]

    def make():
        X = c.np.array([a * x for x in P])
        return m.BravaisLattice(ID, X, dim), [X]
    isolation(c, make, lambda c, L: dict(Laue_group=L.Laue_group, point_group=L.point_group, lattice_group=L.lattice_group,
                                         special_lattice_group=L.special_lattice_group, base=L.base), 1)


def bravais(c, dim, aslist):
    m = c.mod('structrans')
    ID = c.pick('ID', list(range(1, 15 if dim == 3 else 6)))
    from props.common import NPARAM2, NPARAM3
    n = (NPARAM3 if dim == 3 else NPARAM2)[ID - 1]
    p = [c.real('p%d' % i, 0.5, 5) for i in range(n)]
    ang = {(3, 5): {1: 75}, (3, 12): {3: 80}, (3, 13): {3: 80}, (3, 14): {3: 80, 4: 85, 5: 95}, (2, 5): {2: 75}}.get((dim, ID), {})
    for i, v in ang.items():
        p[i] = v + 0 * p[0]
    idx = [1, 2, 2][:dim]

    def make():
        X = list(p) if aslist else c.np.array(p)
        return m.BravaisLattice(ID, X, dim), [X]
    isolation(c, make, lambda c, L: dict(base=L.base, lat_param=L.lat_param, getLatParam=L.getLatParam, conventional_trans=L.conventional_trans,
                                         getConventionalTrans=L.getConventionalTrans, conventional_base=L.conventional_base,
                                         Bravais_id=L.Bravais_id, prim=lambda: L.to_primitive_Miller(idx),
                                         conv=lambda: L.to_conventional_Miller(idx)), 1)


def group(c, form):
    m = c.mod('structrans.crystallography')
    n, k = (2, 4) if form == 'list' else (3, 2)
    M = [[[c.real('m%d%d%d' % (q, i, j), -3, 3) for j in range(n)] for i in range(n)] for q in range(k)]

    def make():
        X = [[list(r) for r in a] for a in M] if form == 'list' else c.np.array(M) if form == 'array' else [c.np.array(a) for a in M]
        return m.MatrixGroup(X), [X]
    isolation(c, make, lambda c, G: dict(matrices=G.matrices, order=G.order), 1)


def library(c):
    """the groups of the library"""
    m = c.mod('structrans.crystallography.matrix_group')
    names = ['CUBIC_LAUE_GROUP', 'HEX_LAUE_GROUP', 'SQUARE_EXT_GROUP', 'SQUARE_GROUP', 'HEX2D_EXT_GROUP', 'HEX2D_GROUP']
    acc = {n: getattr(m, n).matrices for n in names}
    want = {n: flat(acc[n]()) for n in names}
    k = c.pick('changed', names)
    scramble(c, acc[k]())
    for n in names:
        c.check(same(c, flat(acc[n]()), want[n]), '%s after changing the matrices of %s' % (n, k))


def martensite(c, form):
    m = c.mod('structrans')
    a, b = c.real('a', 0.85, 1.2), c.real('b', 0.85, 1.2)
    c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
    z = 0 * a
    U = [[b, z, z], [z, a, z], [z, z, a]]

    def make():
        X = c.np.array(U) if form != 'list' else [list(r) for r in U]
        M = m.Martensite(X) if form == 'init' else m.Martensite().setU(X)
        if form == 'laue':
            M = M.setLaue(6)
        return M, [X]
    isolation(c, make, lambda c, M: dict(getU=M.getU, getvariants=M.getvariants, getvariant1=lambda: M.getvariant(1), getvariant2=lambda: M.getvariant(2),
                                         getLaueidx=M.getLaueidx, getLaue=M.getLaue, isreversible=M.isreversible), 1)


def derived(c):
    """setU and setLaue return new objects and leave the old one alone"""
    m = c.mod('structrans')
    a, b = c.real('a', 0.85, 1.2), c.real('b', 0.85, 1.2)
    c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
    z = 0 * a
    M = m.Martensite().setU(c.np.array([[b, z, z], [z, a, z], [z, z, a]]))
    if c.pick('asked', [True, False]):
        M.getvariants()
    U2 = [[a, z, z], [z, a, z], [z, z, b]]
    k = c.pick('call', ['setU', 'setLaue', 'setLaue-id', 'both'])
    N = M
    if k in ('setU', 'both'):
        N = N.setU(c.np.array(U2))
    if k in ('setLaue', 'both'):
        N = N.setLaue(m.BravaisLattice(7, [1.0, 1.3]).Laue_group())
    if k == 'setLaue-id':
        N = N.setLaue(6)
    c.check(M.getLaue().order() == 24 and len(M.getvariants()) == 3, 'the old transformation is unchanged')
    c.eq(M.getU(), [[b, z, z], [z, a, z], [z, z, a]], 'the old stretch is unchanged')
    c.eq(M.getvariant(1), [[b, z, z], [z, a, z], [z, z, a]], 'the first variant of the old transformation')
    c.eq(N.getU(), U2 if k in ('setU', 'both') else [[b, z, z], [z, a, z], [z, z, a]], 'the new stretch')
    c.check(N.getLaue().order() == (24 if k == 'setU' else 8), 'the new group')
    nv = {'setU': 3, 'both': 1}.get(k, None)
    if nv:
        c.check(len(N.getvariants()) == nv, 'the variants of the new stretch in the new group')
        c.eq(N.getvariant(1), U2, 'the first variant of the new transformation')


def _pairacc(c, tp):
    return dict(Ui=tp.Ui, Uj=tp.Uj, ax=tp.ax, twinparam=tp.twinparam, volumefrac=tp.volumefrac, istwinnable=tp.istwinnable,
                isconventional=tp.isconventional, iscompound=tp.iscompound, XI=tp.XI, XII=tp.XII)


def pair(c, kind, skip):
    t = c.mod('structrans.marttrans.twin')
    if kind in ('tetr', 'face1'):
        U = stretch(c, kind)
        e = AXES[5 if kind == 'tetr' else 0]
        V = variant(U, e)
        spectrum(c, U, V, e, 1, 1)
    else:
        U, V, e = generic(c, kind, 'h', 'I', 1, 1)
    U, V = [[list(r) for r in X] for X in (U, V)]

    def make():
        X, Y = c.np.array(U), c.np.array(V)
        return t.TwinPair(X, Y, skipcheck=skip), [X, Y]
    isolation(c, make, _pairacc, 2)


def system(c, form):
    m = c.mod('structrans')
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    a, b = c.real('a', 0.85, 1.2), c.real('b', 0.85, 1.2)
    c.assume(c.Or(b - a >= 0.03, a - b >= 0.03))
    z = 0 * a
    Us = [[[x, z, z], [z, y, z], [z, z, w]] for x, y, w in ((b, a, a), (a, b, a))]

    def make():
        X = np.array(Us) if form == 'array' else [np.array(U) for U in Us]
        return t.TwinSystem(X), [X]
    isolation(c, make, lambda c, s: dict(Ulist=s.Ulist, TwinTable=s.TwinTable, getTwinpairs=s.getTwinpairs, getConventional=s.getConventional,
                                         getCompound=s.getCompound, getTypeI=s.getTypeI, getTypeII=s.getTypeII, Laue=s.Laue), 1)


CASES = [('lattice-%d-%s' % (n, 'list' if f else 'array'), lattice, dict(n=n, aslist=f), dict(time=60)) for n in (2, 3) for f in (True, False)]
CASES += [('groups-%d-%d' % (d, i), groups, dict(ID=i, dim=d), dict(time=60)) for d, i in ((3, 4), (3, 8), (2, 4), (2, 2))]
CASES += [('bravais-%d-%s' % (d, 'list' if f else 'array'), bravais, dict(dim=d, aslist=f), dict(time=60)) for d in (2, 3) for f in (True, False)]
CASES += [('group-' + f, group, dict(form=f), {}) for f in ('list', 'array', 'arrays')]
CASES += [('library', library, {}, {})]
CASES += [('martensite-' + f, martensite, dict(form=f), dict(time=60)) for f in ('init', 'list')]
CASES += [('derived', derived, {}, dict(time=60))]
CASES += [('pair-%s-%s' % (k, s), pair, dict(kind=k, skip=s), dict(time=60)) for k, s in (('face1', True), ('face1', False), ('A', False), ('E', False))]
CASES += [('system-' + f, system, dict(form=f), dict(time=60)) for f in ('array', 'list')]
CASES += [('groups-%d-%d' % (d, i), groups, dict(ID=i, dim=d), dict(time=200, tier='thorough')) for d, i in ((3, 1), (3, 7), (2, 1))]
CASES += [('martensite-' + f, martensite, dict(form=f), dict(time=200, tier='thorough')) for f in ('set', 'laue')]
CASES += [('pair-A-True', pair, dict(kind='A', skip=True), dict(time=300, tier='thorough'))]
CASES += [('pair-tetr-%s' % s, pair, dict(kind='tetr', skip=s), dict(time=300, tier='thorough')) for s in (True, False)]
