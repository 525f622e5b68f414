"""Construction of lattices rejects invalid input and accepts valid input."""
from props.common import NPARAM3, NPARAM2

BOUNDS = ('type numbers -3..20, dimensions 2 and 3, parameter lists of length 0..7 with values any real in -5..100, '
          'at most one of them out of range; Lattice bases up to 3 x 3 with entries in +-10, and of cells with edges 0.01..0.04 and 250..1000')
OUTSIDE = 'other argument types'

ANG = {(5, 3): {1}, (12, 3): {3}, (13, 3): {3}, (14, 3): {3, 4, 5}, (5, 2): {2}}


def _good(c, ID, dim):
    n = (NPARAM3 if dim == 3 else NPARAM2)[ID - 1]
    ang = ANG.get((ID, dim), set())
    return [c.real('p%d' % i, 75, 100) if i in ang else c.real('p%d' % i, 0.5, 20) for i in range(n)]


def accept(c, dim):
    m = c.mod('structrans.crystallography')
    ID = c.pick('id', range(1, 15 if dim == 3 else 6))
    p = _good(c, ID, dim)
    L = m.BravaisLattice(ID, list(p), dim)
    c.check(L.dimension() == dim, 'valid parameters are accepted')


def bad_id(c, dim):
    m = c.mod('structrans.crystallography')
    n = 14 if dim == 3 else 5
    ID = c.int('id', -3, 20)
    c.assume(c.Or(ID < 1, ID > n))
    k = c.pick('len', [1, 2, 3, 4, 6])
    p = [c.real('p%d' % i, 50, 100) for i in range(k)]
    c.check(c.raises(lambda: m.BravaisLattice(ID, list(p), dim), ValueError), 'an unknown type number is rejected')


def bad_len(c, dim):
    m = c.mod('structrans.crystallography')
    ID = c.pick('id', range(1, 15 if dim == 3 else 6))
    n = (NPARAM3 if dim == 3 else NPARAM2)[ID - 1]
    k = c.pick('len', [x for x in range(1, 8)])
    c.assume(k != n)
    p = [c.real('p%d' % i, 50, 100) for i in range(k)]
    c.check(c.raises(lambda: m.BravaisLattice(ID, list(p), dim), ValueError),
            'a wrong number of lattice parameters is rejected')


def bad_sign(c, dim, aslist):
    m = c.mod('structrans.crystallography')
    ID = c.pick('id', range(1, 15 if dim == 3 else 6))
    p = _good(c, ID, dim)
    k = c.pick('k', range(len(p)))
    p[k] = c.real('bad', -5, 0)
    arg = list(p) if aslist else c.np.array(p)
    c.check(c.raises(lambda: m.BravaisLattice(ID, arg, dim), ValueError), 'a non-positive lattice parameter is rejected')


def bad_shape(c):
    m = c.mod('structrans.crystallography')
    x = c.real('x', 1, 5)
    c.check(c.raises(lambda: m.BravaisLattice(1, [[x]]), ValueError), 'a nested parameter list is rejected')
    c.check(c.raises(lambda: m.BravaisLattice(4, c.np.array([[x, x]])), ValueError), 'a nested parameter list is rejected')
    c.check(c.raises(lambda: m.BravaisLattice(1, 'a'), ValueError), 'a string is rejected')
    c.check(c.raises(lambda: m.BravaisLattice(1, None), ValueError), 'None is rejected')


def base(c, n):
    """Lattice accepts every non-singular square base and keeps it"""
    m = c.mod('structrans.crystallography')
    E = c.mat('e', n, n, -10, 10)
    from props.common import det
    d = det([[E[i][j] for j in range(n)] for i in range(n)])
    c.assume(c.Or(d >= 0.01, d <= -0.01))
    L = m.Lattice(E)
    c.eq(L.base(), E, 'the base is kept')
    c.check(L.dimension() == n, 'the dimension is that of the base')
    L2 = m.Lattice([[E[i][j] for j in range(n)] for i in range(n)])
    c.eq(L2.base(), E, 'a nested list is accepted as a base')


def small(c, n, size):
    """bases of small or large cells"""
    m = c.mod('structrans.crystallography')
    p = [c.real('p%d' % i, 0.5 * size, 2 * size) for i in range(n)]
    t = c.real('t', -0.9 * size, 0.9 * size)
    E = [[p[i] if i == j else (t if (i, j) == (0, 1) else 0 * t) for j in range(n)] for i in range(n)]
    L = m.Lattice(E)
    c.eq(L.base(), E, 'the base is kept')
    c.check(L.dimension() == n, 'the dimension is that of the base')
    if n == 3:
        c.eq(m.BravaisLattice(8, p).conventional_base(), [[p[i] if i == j else 0 for j in range(3)] for i in range(3)], 'the base is kept')
    else:
        c.eq(m.BravaisLattice(2, p, 2).conventional_base(), [[p[i] if i == j else 0 for j in range(2)] for i in range(2)], 'the base is kept')


def singular(c, n):
    m = c.mod('structrans.crystallography')
    E = [[c.int('e%d%d' % (i, j), -10, 10) for j in range(n)] for i in range(n)]
    k = c.int('k', -3, 3)
    for i in range(n):
        E[i][n - 1] = k * E[i][0]
    # exactly representable zero columns only: rounding may make other singular bases look regular
    c.assume(k == 0)
    c.check(c.raises(lambda: m.Lattice(E), ValueError), 'a singular base is rejected')


def not_square(c):
    m = c.mod('structrans.crystallography')
    x = c.real('x', 1, 5)
    c.check(c.raises(lambda: m.Lattice([[x, 0, 0], [0, x, 0]]), ValueError), 'a rectangular base is rejected')
    c.check(c.raises(lambda: m.Lattice([x, x]), ValueError), 'a vector is rejected')
    c.check(c.raises(lambda: m.Lattice([[[x]]]), ValueError), 'a three dimensional array is rejected')


CASES = []
for _d in (2, 3):
    CASES += [('accept%d' % _d, accept, dict(dim=_d), dict(time=30)),
              ('id%d' % _d, bad_id, dict(dim=_d), dict(time=30)),
              ('len%d' % _d, bad_len, dict(dim=_d), dict(time=30)),
              ('sign%d-list' % _d, bad_sign, dict(dim=_d, aslist=True), dict(time=30)),
              ('sign%d-array' % _d, bad_sign, dict(dim=_d, aslist=False), dict(time=30))]
CASES += [('shape', bad_shape, {}, dict(time=20)), ('base1', base, dict(n=1), dict(time=20)),
          ('base2', base, dict(n=2), dict(time=20)), ('base3', base, dict(n=3), dict(time=40)),
          ('small2', small, dict(n=2, size=0.02), dict(time=20)), ('small3', small, dict(n=3, size=0.02), dict(time=20)),
          ('large2', small, dict(n=2, size=500), dict(time=20)), ('large3', small, dict(n=3, size=500), dict(time=20)),
          ('singular2', singular, dict(n=2), dict(time=20)), ('singular3', singular, dict(n=3), dict(time=20)),
          ('notsquare', not_square, {}, dict(time=20))]
