"""Membership in the point group and in the lattice group."""
from props.common import det, mul, eye

BOUNDS = ('bases [[a, b], [0, c]] (any plane lattice up to a rotation) with a, c in [0.5, 4], b in [-4, 4] and their 3D '
          'prisms; all integer 2D matrices with entries in +-1, one family up to +-3; orthogonal matrices: all symmetries '
          'of the square and the hexagon, every rotation angle; distorted matrices with any distortion from 0.1 percent up')
OUTSIDE = 'matrices within 1e-3 of, but not at, a symmetry (tolerance zone of the checks); dimension > 3'


def _inv2(E):
    d = det(E)
    return [[E[1][1] / d, -E[0][1] / d], [-E[1][0] / d, E[0][0] / d]]


def _base2(c, lo=0.5):
    a, b, d = c.real('a', lo, 4), c.real('b', -2, 2), c.real('c', lo, 2)
    return [[a, a * b], [0, a * d]]


def _ops2(np):
    h = np.sqrt(3) / 2
    o = [[[1, 0], [0, -1]], [[0, -1], [1, 0]], [[0, 1], [1, 0]], [[-1, 0], [0, -1]], [[0, -1], [-1, 0]],
         [[-1, 0], [0, 1]], [[1, 0], [0, 1]],
         [[0.5, -h], [h, 0.5]], [[-0.5, -h], [h, -0.5]], [[0.5, h], [h, -0.5]], [[-0.5, h], [h, 0.5]]]
    return o


def pg2(c, k):
    """inpointgroup(Q) only when Q maps the lattice to itself"""
    m = c.mod('structrans.crystallography')
    np = c.np
    E = _base2(c)
    Q = _ops2(np)[k]
    r = m.Lattice(np.array(E)).inpointgroup(np.array(Q))
    if r:
        M = mul(_inv2(E), mul(Q, E))
        c.check(c.all_int(M, 2e-3), 'Q accepted: Q must map lattice vectors to lattice vectors')


def lg2(c, fill):
    """inlatticegroup(M) only when E M = Q E with an orthogonal Q"""
    m = c.mod('structrans.crystallography')
    np = c.np
    c.int_mode('fork')
    E = _base2(c)
    M = [[c.value(c.int('m%d%d' % (i, j), *fill[i][j])) for j in range(2)] for i in range(2)]
    r = m.Lattice(np.array(E)).inlatticegroup(np.array(M))
    if r:
        c.check(det(M) in (1, -1), 'M accepted: M is unimodular')
        # columns of E M as long as the columns of E
        F = mul(E, M)
        for j in range(2):
            g = E[0][j] * E[0][j] + E[1][j] * E[1][j]
            h = F[0][j] * F[0][j] + F[1][j] * F[1][j]
            c.check(c.And(h <= 1.01 * g, h >= 0.99 * g), 'M accepted: M must preserve the metric of the lattice')
    else:
        c.reached()


U2 = [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[2, 1], [1, 1]], [[1, -3], [0, 1]], [[0, 1], [1, 0]], [[-1, 0], [2, 1]]]


def sym2(c, kind):
    """every symmetry of a plane lattice is accepted, whatever base describes the lattice"""
    m = c.mod('structrans.crystallography')
    np = c.np
    a, b = c.real('a', 0.5, 10), c.real('b', 0.5, 10)
    h = np.sqrt(3) / 2
    flip = [[1, 0], [0, -1]]
    r90 = [[0, -1], [1, 0]]
    r60 = [[0.5, -h], [h, 0.5]]
    E, gens = {'rect': ([[a, 0], [0, b]], [flip]), 'rhomb': ([[a, a], [b, -b]], [flip]),
               'square': ([[a, 0], [0, a]], [flip, r90]),
               'tilted': ([[a, -b], [b, a]], [r90]),
               'hex': ([[a, a / 2], [0, a * h]], [flip, r60]),
               'any': ([[a, c.real('d', -5, 5)], [0, b]], [])}[kind]
    U = c.pick('u', U2)
    F = np.array(mul(E, U))
    L = m.Lattice(F)
    ops = [eye(2), [[-1, 0], [0, -1]]] + gens
    for g in gens:
        ops += [mul(g, g), mul(g, mul(g, g))] + [mul(g, k) for k in gens]
    for Q in ops:
        Q = np.array(Q)
        c.check(L.inpointgroup(Q), 'a symmetry of the lattice is in the point group')
        M = np.rint(c.la.inv(F).dot(Q).dot(F))
        c.check(L.inlatticegroup(M), 'the lattice matrix of a symmetry is in the lattice group')


def dual3(c, ID, k):
    """the lattice matrix of a symmetry is in the lattice group, symmetry operations stay accepted"""
    m = c.mod('structrans.crystallography')
    np = c.np
    from props.common import holohedry3, params3, valid_triclinic
    p = params3(c, ID)
    if ID == 14:
        c.assume(valid_triclinic(c, p))
    L = m.BravaisLattice(ID, p)
    ops = holohedry3(np, ID)
    Q = np.array(ops[k % len(ops)])
    E = L.base()
    c.check(L.inpointgroup(Q), 'a symmetry of the lattice is in the point group')
    c.check(L.inpointgroup(-Q), 'the point group contains the inversion')
    M = np.rint(c.la.inv(E).dot(Q).dot(E))
    c.check(L.inlatticegroup(M), 'the lattice matrix of a symmetry is in the lattice group')
    c.check(L.inlatticegroup(np.array(M, dtype='int')), 'the integer lattice matrix is in the lattice group')
    c.check(L.inlatticegroup(-M), 'the lattice group contains the inversion')


def rotations2(c, kind):
    """a rotation of a plane lattice by a non-crystallographic angle is rejected"""
    m = c.mod('structrans.crystallography')
    np = c.np
    lo, hi, E = {'square': (1, 89, [[1, 0], [0, 1]]), 'hex': (1, 59, [[1, 0.5], [0, np.sqrt(3) / 2]]),
                 'rect': (1, 179, [[1, 0], [0, 1.3]])}[kind]
    s = c.real('s', 0.5, 10)
    t = c.real('t', lo, hi)
    x = t * np.pi / 180
    R = np.array([[np.cos(x), -np.sin(x)], [np.sin(x), np.cos(x)]])
    L = m.Lattice(s * np.array(E))
    c.check(not L.inpointgroup(R), 'a rotation that is not a symmetry is rejected')


def bad_q(c, kind):
    """matrices that are not orthogonal or of the wrong shape are not in the point group"""
    m = c.mod('structrans.crystallography')
    np = c.np
    a, b, d = c.real('a', 0.5, 4), c.real('b', 0.5, 4), c.real('c', 0.5, 4)
    L = m.Lattice(np.array([[a, 0, 0], [0, b, 0], [0, 0, d]]))
    if kind == 'stretch':
        s = c.real('s', 1.001, 5)
        Q = [[s, 0, 0], [0, 1 / s, 0], [0, 0, 1]]
    elif kind == 'double':
        k = c.int('k', 2, 5)
        Q = [[k, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'shear':
        s = c.real('s', 0.001, 5)
        Q = [[1, s, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'latshear':
        Q = [[1, a / b, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'intshear':
        Q = [[1, 1, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'singular':
        Q = [[0, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'dim':
        Q = [[1, 0], [0, 1]]
    elif kind == 'rect':
        Q = [[1, 0, 0], [0, 1, 0]]
    elif kind == 'flat':
        Q = [1, 0, 0]
    c.check(not L.inpointgroup(np.array(Q)), 'a matrix that is not an isometry of the space is rejected')


def bad_m(c, kind):
    """matrices that are not integral or not isometries are not in the lattice group"""
    m = c.mod('structrans.crystallography')
    np = c.np
    a, b, d = c.real('a', 0.5, 1), c.real('b', 1.2, 2), c.real('c', 2.5, 4)
    E = [[a, 0, 0], [0, b, 0], [0, 0, d]]
    if kind == 'frac':
        E = [[a, 0, 0], [0, a, 0], [0, 0, d]]
        t = c.real('t', 1, 89)
        x = t * np.pi / 180
        M = [[np.cos(x), -np.sin(x), 0], [np.sin(x), np.cos(x), 0], [0, 0, 1]]
    elif kind == 'half':
        # a centred square: the diagonal entries one half are orthogonal but not integral
        E = [[a, 0, 0], [0, a, 0], [0, 0, a]]
        M = [[0.5, -np.sqrt(3) / 2, 0], [np.sqrt(3) / 2, 0.5, 0], [0, 0, 1]]
    elif kind == 'shear':
        k = c.value(c.int('k', 1, 4))
        M = [[1, k, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'swap':
        M = [[0, 1, 0], [1, 0, 0], [0, 0, 1]]
    elif kind == 'double':
        M = [[2, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif kind == 'singular':
        M = [[0, 0, 0], [0, 1, 0], [0, 0, 1]]
    L = m.Lattice(np.array(E))
    c.check(not L.inlatticegroup(np.array(M)), 'a matrix that is not a symmetry of the lattice is rejected')


CASES = [('pg2-%d' % k, pg2, dict(k=k), dict(time=40)) for k in range(11)]
CASES += [('sym2-' + k, sym2, dict(kind=k), dict(time=30)) for k in ('rect', 'rhomb', 'square', 'tilted', 'hex', 'any')]
CASES += [('lg2', lg2, dict(fill=[[(-1, 1)] * 2] * 2), dict(time=60)),
          ('lg2-wide', lg2, dict(fill=[[(0, 1), (-3, 3)], [(0, 1), (-1, 1)]]), dict(time=60)),
          ('lg2-full', lg2, dict(fill=[[(-3, 3)] * 2] * 2), dict(time=150, paths=5000, tier='thorough'))]
_n = {1: 24, 2: 24, 3: 24, 4: 12, 5: 6, 6: 8, 7: 8, 8: 4, 9: 4, 10: 4, 11: 4, 12: 2, 13: 2, 14: 1}
CASES += [('dual3-%d-%d' % (i, k), dual3, dict(ID=i, k=k), dict(time=20)) for i in range(1, 15)
          for k in sorted(set([_n[i] - 1, _n[i] // 2]))]
CASES += [('dual3-%d-%d' % (i, k), dual3, dict(ID=i, k=k), dict(time=20, tier='thorough')) for i in range(1, 15)
          for k in range(_n[i]) if k not in (_n[i] - 1, _n[i] // 2)]
CASES += [('rot2-' + k, rotations2, dict(kind=k), dict(time=40)) for k in ('square', 'hex', 'rect')]
CASES += [('badq-' + k, bad_q, dict(kind=k), dict(time=20)) for k in
          ('stretch', 'double', 'shear', 'latshear', 'intshear', 'singular', 'dim', 'rect', 'flat')]
CASES += [('badm-' + k, bad_m, dict(kind=k), dict(time=20)) for k in ('frac', 'half', 'shear', 'swap', 'double', 'singular')]
