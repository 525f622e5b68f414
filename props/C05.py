"""Primitive and conventional cells and index conversion."""
from props.common import params3, valid_triclinic, MULT3, MULT2, CENT3, CENT2, NPARAM2, mul, det

BOUNDS = ('all 19 Bravais types; lattice parameters as in C04; indices any real in +-20, lists of up to three indices')
OUTSIDE = 'longer index lists (each row is converted on its own)'


def _lat(c, ID, dim):
    m = c.mod('structrans.crystallography')
    if dim == 3:
        p = params3(c, ID)
        if ID == 14:
            c.assume(valid_triclinic(c, p))
        return m.BravaisLattice(ID, c.np.array(p))
    p = [c.real('p%d' % i, 0.5, 50) for i in range(NPARAM2[ID - 1])]
    if ID == 5:
        p[2] = c.real('gamma', 5, 175)
    return m.BravaisLattice(ID, c.np.array(p), dim=2)


def cells(c, ID, dim):
    L = _lat(c, ID, dim)
    E, B, T = L.base(), L.conventional_base(), L.conventional_trans()
    n = (MULT3 if dim == 3 else MULT2)[ID - 1]
    c.check(c.all_int(T), 'conventional vectors are integer combinations of primitive vectors')
    c.eq(mul(E, T), B, 'conventional base = primitive base times the conversion matrix', tol=1e-7)
    dt = det(T)
    c.check(c.Or(c.close([dt], [n]), c.close([dt], [-n])),
            'the conventional cell holds the number of lattice points of its centring')
    # the centring points of the type, and no others with half-integer coordinates, are lattice points
    cent = (CENT3 if dim == 3 else CENT2).get(ID, [])
    import itertools
    for v in itertools.product((0, 1), repeat=dim):
        if not any(v):
            continue
        h = [x * 0.5 for x in v]
        q = [sum(T[i][j] * h[j] for j in range(dim)) for i in range(dim)]
        if v in cent:
            c.check(c.all_int(q), 'the centring points of the type are lattice points')
        else:
            c.check(c.Not(c.all_int(q)), 'only the centring points of the type are lattice points')


def miller(c, ID, dim):
    L = _lat(c, ID, dim)
    E, B = L.base(), L.conventional_base()
    v = c.vec('v', dim, -20, 20)
    p = L.to_primitive_Miller(v)
    q = L.to_conventional_Miller(v)
    c.check(c.shape(p) == (dim,) and c.shape(q) == (dim,), 'one index in, one index out')
    c.eq(E.dot(p), B.dot(v), 'the primitive index names the same vector', tol=1e-6)
    c.eq(B.dot(q), E.dot(v), 'the conventional index names the same vector', tol=1e-6)
    c.eq(L.to_conventional_Miller(p), v, 'conversion to primitive and back is the identity')
    c.eq(L.to_primitive_Miller(q), v, 'conversion to conventional and back is the identity')


def lists(c, ID, dim, rows):
    L = _lat(c, ID, dim)
    V = c.np.array([[c.real('v%d%d' % (i, j), -20, 20) for j in range(dim)] for i in range(rows)])
    keep = [[V[i][j] for j in range(dim)] for i in range(rows)]
    P = L.to_primitive_Miller(V)
    Q = L.to_conventional_Miller(V)
    want = (rows, dim) if rows > 1 else (dim,)
    c.check(c.shape(P) == want and c.shape(Q) == want, 'a list of indices is converted to a list of indices')
    c.eq(V, keep, 'the indices passed in are not modified')
    for i in range(rows):
        p = L.to_primitive_Miller(V[i])
        q = L.to_conventional_Miller(V[i])
        c.eq(P[i] if rows > 1 else P, p, 'a list is converted index by index (primitive)')
        c.eq(Q[i] if rows > 1 else Q, q, 'a list is converted index by index (conventional)')
    P2 = L.to_primitive_Miller([[V[i][j] for j in range(dim)] for i in range(rows)])
    Q2 = L.to_conventional_Miller([[V[i][j] for j in range(dim)] for i in range(rows)])
    c.eq(P2, P, 'lists and arrays are converted alike')
    c.eq(Q2, Q, 'lists and arrays are converted alike')


def reject(c, ID, dim):
    L = _lat(c, ID, dim)
    x = c.real('x', -5, 5)
    for bad in ([x] * (dim + 1), [x] * (dim - 1), [[x] * (dim + 1), [x] * (dim + 1)], [[[x] * dim]], x):
        c.check(c.raises(lambda: L.to_primitive_Miller(bad), ValueError), 'an index of the wrong dimension is rejected')
        c.check(c.raises(lambda: L.to_conventional_Miller(bad), ValueError),
                'an index of the wrong dimension is rejected')


def deprecated(c, ID, dim):
    L = _lat(c, ID, dim)
    v = c.vec('v', dim, -20, 20)
    c.eq(L.toPrimitive(v), L.to_primitive_Miller(v), 'toPrimitive is to_primitive_Miller')
    c.eq(L.toConventional(v), L.to_conventional_Miller(v), 'toConventional is to_conventional_Miller')
    c.eq(L.getConventionalBase(), L.conventional_base(), 'getConventionalBase is conventional_base')
    c.eq(L.getConventionalTrans(), L.conventional_trans(), 'getConventionalTrans is conventional_trans')


ALL = [(i, 3) for i in range(1, 15)] + [(i, 2) for i in range(1, 6)]
CASES = []
for _i, _d in ALL:
    CASES += [('cells%d-%d' % (_d, _i), cells, dict(ID=_i, dim=_d), dict(time=30)),
              ('miller%d-%d' % (_d, _i), miller, dict(ID=_i, dim=_d), dict(time=30)),
              ('lists%d-%d' % (_d, _i), lists, dict(ID=_i, dim=_d, rows=1 + _i % 3), dict(time=30))]
CASES += [('reject3', reject, dict(ID=9, dim=3), dict(time=30)), ('reject2', reject, dict(ID=3, dim=2), dict(time=30)),
          ('alias3', deprecated, dict(ID=10, dim=3), dict(time=30)), ('alias2', deprecated, dict(ID=3, dim=2), dict(time=30)),
          ('lists3-many', lists, dict(ID=13, dim=3, rows=4), dict(time=30)),
          ('lists2-many', lists, dict(ID=3, dim=2, rows=3), dict(time=30))]
