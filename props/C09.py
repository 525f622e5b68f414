"""Symmetry groups of the Bravais lattices."""
from props.common import holohedry3, holohedry2, same_set, params3, valid_triclinic, mul, tr, eye, cubic24, hex12, hex2d, signed_perms2, det

BOUNDS = ('all 14 + 5 Bravais types; any real axial ratios in boxes of generic shapes (at least '
          '3 percent away from shapes of higher symmetry), any overall scale in 0.5..50, with the trigonal, monoclinic, triclinic and '
          'oblique angles from the lists in the cases, plus the shapes of '
          'accidental higher symmetry listed in the cases (also with a symbolic scale)')
OUTSIDE = ('shapes closer than 3 percent to a shape of higher symmetry; higher symmetry whose axes are not parallel to the '
           'standard cubic or hexagonal axes (the library only searches these)')


def _groups(c, L, rots, full, n):
    """the four groups of the lattice are exactly the expected ones"""
    np = c.np
    E = L.base()
    Ei = c.la.inv(E)
    lg = L.Laue_group()
    lm = lg.matrices()
    c.check(lg.order() == len(rots), 'order of the Laue group')
    c.check(same_set(c, lm, rots), 'the Laue group is the set of rotations that map the lattice to itself')
    pg = L.point_group().matrices()
    c.check(same_set(c, pg, full), 'the point group is the set of isometries that map the lattice to itself')
    for grp, ref, what in ((L.special_lattice_group(), lm, 'special lattice group'), (L.lattice_group(), pg, 'lattice group')):
        mats = grp.matrices()
        if not c.check(len(mats) == len(ref), 'order of the ' + what):
            continue
        for i, M in enumerate(mats):
            c.check(c.And(*[c.is_int(x, 1e-9) for r in M for x in r]), 'the %s is integral' % what)
            # E M = Q E
            c.eq(E.dot(M), ref[i].dot(E), 'the %s represents the point symmetries in the base' % what, tol=1e-6)


def generic3(c, ID):
    m = c.mod('structrans.crystallography')
    np = c.np
    a = c.real('a', 0.5, 50)
    if ID in (1, 2, 3):
        p = [a]
    elif ID == 4:
        p = [a, a * c.real('r', 0.5, 4)]
    elif ID == 5:
        p = [a, c.pick('alpha', [40, 75, 100])]
    elif ID in (6, 7):
        p = [a, a * c.real('r', 1.05, 1.35)]
    elif ID in (8, 9, 10, 11):
        p = [a, a * c.real('r', 1.1, 1.3), a * c.real('s', 1.4, 1.7)]
    elif ID in (12, 13):
        p = [a, a * c.real('r', 1.1, 1.3), a * c.real('s', 1.4, 1.7), c.pick('beta', [80, 97, 103])]
    else:
        p = [a, a * c.real('r', 1.1, 1.2), a * c.real('s', 1.4, 1.5)] + c.pick('angles', [[80, 85, 95], [70, 110, 100]])
    L = m.BravaisLattice(ID, p)
    R = holohedry3(np, ID)
    _groups(c, L, R, R + [[[-x for x in r] for r in M] for M in R], 3)


def tall3(c, ID):
    """shapes on the other side of the cube"""
    m = c.mod('structrans.crystallography')
    a = c.real('a', 0.5, 50)
    if ID in (6, 7):
        p = [a, a * c.real('r', 0.6, 0.95)]
    else:
        p = [a, a * c.real('r', 0.75, 0.9), a * c.real('s', 0.5, 0.7)]
    L = m.BravaisLattice(ID, p)
    R = holohedry3(c.np, ID)
    _groups(c, L, R, R + [[[-x for x in r] for r in M] for M in R], 3)


def generic2(c, ID):
    m = c.mod('structrans.crystallography')
    a = c.real('a', 0.5, 50)
    if ID in (1, 4):
        p = [a]
    elif ID in (2, 3):
        p = [a, a * c.real('r', 1.1, 1.6)]
    else:
        p = [a, a * c.real('r', 1.1, 1.4), c.pick('gamma', [75, 100])]
    L = m.BravaisLattice(ID, p, dim=2)
    R, F = holohedry2(c.np, ID)
    _groups(c, L, R, F, 2)


def special3(c, what):
    m = c.mod('structrans.crystallography')
    np = c.np
    a = c.real('a', 0.5, 50)
    r = c.real('r', 1.1, 1.3)
    ID, p, R = {
        'P-tet a=c': (6, [a, a], cubic24()),
        'I-tet a=c': (7, [a, a], cubic24()),
        'P-ort a=b=c': (8, [a, a, a], cubic24()),
        'F-ort a=b=c': (10, [a, a, a], cubic24()),
        'I-ort a=b=c': (11, [a, a, a], cubic24()),
        'P-ort a=b': (8, [a, a, a * r], holohedry3(np, 6)),
        'I-ort a=b': (11, [a, a, a * r], holohedry3(np, 7)),
        'P-ort b=c': (8, [a * r, a, a], [M for M in cubic24() if abs(M[0][0]) == 1]),
        'I-ort a=c': (11, [a, a * r, a], [M for M in cubic24() if abs(M[1][1]) == 1]),
        'C-ort b=sqrt3 a': (9, [a, np.sqrt(3) * a, a * r], hex12(np)),
        'C-ort a=sqrt3 b': (9, [np.sqrt(3) * a, a, a * r], hex12(np)),
        'trig 60': (5, [a, 60], cubic24()),
        'P-mon 90': (12, [a, a * r, a * (r + 0.5), 90], holohedry3(np, 8)),
        'C-mon 90': (13, [a, a * r, a * (r + 0.5), 90], holohedry3(np, 9)),
        'tric 90': (14, [a, a * r, a * (r + 0.5), 90, 90, 90], holohedry3(np, 8)),
        'tric 60': (14, [a, a, a * 1.25, 90, 90, 60], hex12(np)),
        'tric 120': (14, [a, a, a * 1.25, 90, 90, 120], hex12(np)),
    }[what]
    L = m.BravaisLattice(ID, p)
    _groups(c, L, R, R + [[[-x for x in row] for row in M] for M in R], 3)


def special2(c, what):
    m = c.mod('structrans.crystallography')
    np = c.np
    a = c.real('a', 0.5, 50)
    sq = [M for M in signed_perms2() if det(M) == 1]
    hr, hm = hex2d(np)
    ID, p, R, F = {
        'rect a=b': (2, [a, a], sq, signed_perms2()),
        'crect a=b': (3, [a, a], sq, signed_perms2()),
        'crect sqrt3': (3, [a, np.sqrt(3) * a], hr, hr + hm),
        'obl 90': (5, [a, 1.3 * a, 90], [eye(2), [[-1, 0], [0, -1]]], holohedry2(np, 2)[1]),
        'obl 60': (5, [a, a, 60], hr, hr + hm),
        'obl 120': (5, [a, a, 120], hr, hr + hm),
        'obl a=b 90': (5, [a, a, 90], sq, signed_perms2()),
    }[what]
    _groups(c, m.BravaisLattice(ID, p, dim=2), R, F, 2)


def rebased(c, k):
    """the groups of a lattice given by another base"""
    m = c.mod('structrans.crystallography')
    np = c.np
    U = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [0, 1, 1], [0, 0, 1]],
         [[0, 1, 0], [0, 0, 1], [-1, 0, 2]]][k]
    ID = c.pick('ID', [2, 3, 4, 7, 9])
    a = c.real('a', 0.5, 50)
    r = c.real('r', 1.1, 1.3)
    p = {2: [a], 3: [a], 4: [a, a * r], 7: [a, a * r], 9: [a, a * r, a * 1.5]}[ID]
    L = m.Lattice(m.BravaisLattice(ID, p).base().dot(np.array(U)))
    R = holohedry3(np, ID)
    _groups(c, L, R, R + [[[-x for x in row] for row in M] for M in R], 3)


def dims(c):
    """other dimensions are refused"""
    m = c.mod('structrans.crystallography')
    x = c.real('x', 0.5, 5)
    L = m.Lattice(c.np.array([[x, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]))
    c.check(c.raises(L.Laue_group, AttributeError), 'Laue groups only in two and three dimensions')
    c.check(c.raises(L.point_group, AttributeError), 'point groups only in two and three dimensions')
    c.check(c.raises(L.lattice_group, AttributeError), 'lattice groups only in two and three dimensions')
    c.check(c.raises(L.special_lattice_group, AttributeError), 'special lattice groups only in two and three dimensions')


T = dict(time=60)
CASES = [('generic3-%d' % i, generic3, dict(ID=i), T) for i in range(1, 15)]
CASES += [('tall3-%d' % i, tall3, dict(ID=i), T) for i in range(6, 12)]
CASES += [('generic2-%d' % i, generic2, dict(ID=i), T) for i in range(1, 6)]
CASES += [('special3 ' + w, special3, dict(what=w), T) for w in (
    'P-tet a=c', 'I-tet a=c', 'P-ort a=b=c', 'F-ort a=b=c', 'I-ort a=b=c', 'P-ort a=b', 'I-ort a=b', 'P-ort b=c', 'I-ort a=c',
    'C-ort b=sqrt3 a', 'C-ort a=sqrt3 b', 'trig 60', 'P-mon 90', 'C-mon 90', 'tric 90', 'tric 60', 'tric 120')]
CASES += [('special2 ' + w, special2, dict(what=w), T) for w in (
    'rect a=b', 'crect a=b', 'crect sqrt3', 'obl 90', 'obl 60', 'obl 120', 'obl a=b 90')]
CASES += [('rebased-%d' % k, rebased, dict(k=k), T) for k in range(4)]
CASES += [('dims', dims, {}, T)]
