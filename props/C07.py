"""Equality of lattices is equality of the point sets."""
from props.common import det, mul, eye

BOUNDS = ('any real non-singular base with entries in +-5 (2D, 3D; |det| >= 0.1); related bases E M with M any integer '
          'matrix with entries in +-2 in 2D (two families up to +-4) listed families with entries up to 7, or a 3D family of five free entries (the thorough tier '
          'frees all 2D entries in +-4 and seven 3D entries), listed proper sublattices, or M with one non-integer entry')
OUTSIDE = 'bases that differ by less than the documented tolerance; dimension > 3'


def _base(c, n, tag='e'):
    E = c.mat(tag, n, n, -5, 5)
    d = det([[E[i][j] for j in range(n)] for i in range(n)])
    c.assume(c.Or(d >= 0.1, d <= -0.1))
    return E


def rebase(c, n, fill):
    """Lattice(E) == Lattice(E M) exactly when M is unimodular, and == is symmetric"""
    m = c.mod('structrans.crystallography')
    c.int_mode('fork')
    E = _base(c, n)
    M = [[c.int('m%d%d' % (i, j), *fill[i][j]) if isinstance(fill[i][j], tuple) else fill[i][j]
          for j in range(n)] for i in range(n)]
    d = det(M)
    c.assume(d != 0)
    F = E.dot(c.np.array(M))
    A, B = m.Lattice(E), m.Lattice(F)
    r = A == B
    if r:
        c.check(c.Or(d == 1, d == -1), 'a lattice equals E M only for unimodular M')
        c.check(B == A, 'equality is symmetric')
    else:
        c.check(c.And(d != 1, d != -1), 'every integral unimodular change of base gives the same lattice')


def sublattice(c, n):
    """proper sub- and superlattices differ, in both directions"""
    m = c.mod('structrans.crystallography')
    E = _base(c, n)
    S = {2: [[[2, 0], [0, 1]], [[1, 1], [-1, 1]], [[3, 1], [0, 1]], [[1, 0], [5, 2]]],
         3: [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
             [[1, 2, 0], [0, 1, 0], [0, 4, 3]]]}[n]
    M = c.np.array(c.pick('s', S))
    A, B = m.Lattice(E), m.Lattice(E.dot(M))
    c.check(not (A == B), 'a proper sublattice is a different lattice')
    c.check(not (B == A), 'a proper superlattice is a different lattice')


def fractional(c, n):
    """one entry of M is not an integer"""
    m = c.mod('structrans.crystallography')
    E = _base(c, n)
    U = {2: [[[1, 0], [0, 1]], [[1, 2], [0, 1]]],
         3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 1]]]}[n]
    U = c.pick('u', U)
    i = c.pick('i', range(n))
    j = c.pick('j', range(n))
    t = c.real('t', 0.01, 0.99)
    M = [[U[a][b] + (t if (a, b) == (i, j) else 0) for b in range(n)] for a in range(n)]
    d = det(M)
    c.assume(c.Or(d >= 0.01, d <= -0.01))
    A, B = m.Lattice(E), m.Lattice(E.dot(c.np.array(M)))
    c.check(not (A == B), 'bases related by a non-integral matrix span different lattices')


def rotated(c):
    """a rotated plane lattice is a different lattice unless the rotation is a symmetry"""
    m = c.mod('structrans.crystallography')
    np = c.np
    a, b = c.real('a', 1, 1.2), c.real('b', 1.35, 1.6)
    t = c.real('t', 5, 85)
    x = t * np.pi / 180
    R = np.array([[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]])
    E = np.array([[a, 0], [0, b]])
    A, B = m.Lattice(E), m.Lattice(R.dot(E))
    c.check(not (A == B), 'a rotated rectangular lattice is a different lattice')
    C = m.Lattice(np.array([[-a, 0], [0, b]]))
    c.check(A == C and C == A, 'a reflected base of a rectangular lattice spans the same lattice')


def reflexive(c, n):
    m = c.mod('structrans.crystallography')
    E = _base(c, n)
    A = m.Lattice(E)
    c.check(A == A, 'a lattice equals itself')
    c.check(A == m.Lattice(E), 'lattices with the same base are equal')
    c.check(A == m.Lattice(-E), 'lattices with opposite bases are equal')
    c.check(not (A == E), 'a lattice is not equal to its base matrix')
    c.check(not (A == 1), 'a lattice is not equal to a number')
    c.check(not (A == m.Lattice(np_eye(c, n + 1))), 'lattices of different dimension differ')


def np_eye(c, n):
    return c.np.array(eye(n))


CASES = [
    ('rebase2', rebase, dict(n=2, fill=[[(-2, 2)] * 2] * 2), dict(time=60, paths=20000)),
    ('rebase2-wide', rebase, dict(n=2, fill=[[(-4, 4), (-4, 4)], [(-1, 1), 1]]), dict(time=60, paths=20000)),
    ('rebase3', rebase, dict(n=3, fill=[[(-1, 1), (-1, 1), 0], [1, (-1, 1), 0], [0, (-2, 2), (0, 1)]]),
     dict(time=60, paths=20000)),
    # determinants that floating point arithmetic does not find exactly
    ('rebase2-a', rebase, dict(n=2, fill=[[7, 2], [3, (0, 2)]]), dict(time=40)),
    ('rebase2-b', rebase, dict(n=2, fill=[[-2, 3], [3, (-5, -4)]]), dict(time=40)),
    ('rebase3-a', rebase, dict(n=3, fill=[[1, 0, 0], [-3, -3, -2], [3, 2, (0, 1)]]), dict(time=60)),
    ('sub2', sublattice, dict(n=2), dict(time=40)), ('sub3', sublattice, dict(n=3), dict(time=60)),
    ('frac2', fractional, dict(n=2), dict(time=40)), ('frac3', fractional, dict(n=3), dict(time=60)),
    ('rotated', rotated, {}, dict(time=40)),
    ('refl2', reflexive, dict(n=2), dict(time=30)), ('refl3', reflexive, dict(n=3), dict(time=30)),
    ('rebase3-full', rebase, dict(n=3, fill=[[(-1, 1)] * 3, [(-1, 1)] * 3, [1, (-1, 1), 0]]),
     dict(time=150, paths=50000, tier='thorough')),
    ('rebase2-full', rebase, dict(n=2, fill=[[(-4, 4)] * 2] * 2), dict(time=150, paths=50000, tier='thorough')),
]
