"""Unit cells for drawing: vertices and edges."""
import itertools

BOUNDS = ('any real origin in +-10 and any real cell vectors in +-5 (2D and 3D); unit cells of all 19 Bravais types with parameters '
          'as in the cases')
OUTSIDE = 'the selection of primitive vertices inside of a conventional cell (heuristic tolerance of 5 percent)'


def _vertices_ok(c, V, o, E, n):
    """V is the set of corners o + subset sums of the vectors E"""
    if not c.check(c.shape(V) == (2 ** n, n), '2^n corners'):
        return
    want = [[o[k] + sum(E[i][k] for i in s) for k in range(n)] for r in range(n + 1) for s in itertools.combinations(range(n), r)]
    for w in want:
        c.check(c.Or(*[c.close(v, w, 1e-7) for v in V]), 'every corner of the cell is listed')
    for v in V:
        c.check(c.Or(*[c.close(v, w, 1e-7) for w in want]), 'only corners of the cell are listed')


def _bonds_ok(c, b, o, E, n):
    """every edge of the cell exactly once"""
    edges = []
    for i in range(n):
        rest = [k for k in range(n) if k != i]
        for r in range(n):
            for s in itertools.combinations(rest, r):
                p = [o[k] + sum(E[j][k] for j in s) for k in range(n)]
                edges.append((p, [p[k] + E[i][k] for k in range(n)]))
    if not c.check(c.shape(b) == (len(edges), 2, n), 'all edges'):
        return
    for p, q in edges:
        c.check(c.Or(*[c.Or(c.And(c.close(x[0], p, 1e-7), c.close(x[1], q, 1e-7)), c.And(c.close(x[0], q, 1e-7), c.close(x[1], p, 1e-7)))
                       for x in b]), 'every edge of the cell is drawn')


def cell(c, n):
    m = c.mod('structrans.crystallography')
    o = c.vec('o', n, -10, 10)
    E = c.mat('e', n, n, -5, 5)
    V = m.vertex(o, E, n)
    _vertices_ok(c, V, o, E, n)
    _bonds_ok(c, m.bonds(V), o, E, n)


def _par(c, ID, dim):
    a = c.real('a', 0.5, 5)
    if dim == 2:
        p = [[a], [a, 1.5 * a], [a, 1.25 * a], [a], [a, 1.5 * a, 75]][ID - 1]
    else:
        p = ([[a]] * 3 + [[a, 1.5 * a], [a, 75]] + [[a, 1.25 * a]] * 2 + [[a, 1.25 * a, 1.5 * a]] * 4 +
             [[a, 1.25 * a, 1.5 * a, 80]] * 2 + [[a, 1.25 * a, 1.5 * a, 80, 85, 95]])[ID - 1]
    return p


def unitcell(c, ID, dim):
    m = c.mod('structrans.crystallography')
    np = c.np
    p = _par(c, ID, dim)
    o = [c.real('o%d' % i, -3, 3) for i in range(dim)]
    L = m.BravaisLattice(ID, list(p), dim)
    u = m.UnitCell(o, ID, list(p), dim)
    T = L.base().T
    C = L.conventional_base().T
    E = [[T[i][j] for j in range(dim)] for i in range(dim)]
    B = [[C[i][j] for j in range(dim)] for i in range(dim)]
    V = u.getPrimitive()
    _vertices_ok(c, V, o, E, dim)
    _vertices_ok(c, u.getConventionalVex(), o, B, dim)
    _bonds_ok(c, u.getPrimitivebonds(), o, E, dim)
    _bonds_ok(c, u.getConventionalbonds(), o, B, dim)
    # a copy of the cell elsewhere
    s = [c.real('s%d' % i, -3, 3) for i in range(dim)]
    W = u.copyTo(np.array(s), V)
    c.eq(W, [[V[i][k] + s[k] for k in range(dim)] for i in range(2 ** dim)], 'a copy is translated')
    u.setOrigin(np.array(s))
    _vertices_ok(c, u.getPrimitive(), s, E, dim)


CASES = [('cell2', cell, dict(n=2), dict(time=60)), ('cell3', cell, dict(n=3), dict(time=60))]
CASES += [('unitcell2-%d' % i, unitcell, dict(ID=i, dim=2), dict(time=60)) for i in range(1, 6)]
CASES += [('unitcell3-%d' % i, unitcell, dict(ID=i, dim=3), dict(time=60)) for i in range(1, 15)]
