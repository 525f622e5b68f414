"""The conventional cell of a Bravais lattice has the requested metric."""
from props.common import gram, params3, cosd, valid_triclinic, det

BOUNDS = ('all 14 three dimensional and 5 two dimensional types; lengths any real in 0.5..50, angles any real in 5..175 '
          'degrees (trigonal 5..115, triclinic 20..160 with a cell of positive volume)')
OUTSIDE = 'degenerate angles closer than 5 degrees to a flat cell; other length scales (the code is homogeneous in the lengths)'


def metric3(c, ID):
    m = c.mod('structrans.crystallography')
    p = params3(c, ID)
    if ID == 14:
        c.assume(valid_triclinic(c, p))
    L = m.BravaisLattice(ID, c.np.array(p))
    B = L.conventional_base()
    c.check(c.shape(B) == (3, 3), 'the conventional base is 3 x 3')
    G = gram(B)
    z = 0
    if ID in (1, 2, 3):
        a = b = d = p[0]
        ca = cb = cg = z
    elif ID == 4:
        a = b = p[0]
        d = p[1]
        ca = cb = z
        cg = 0.5
    elif ID == 5:
        a = b = d = p[0]
        ca = cb = cg = cosd(c, p[1])
    elif ID in (6, 7):
        a = b = p[0]
        d = p[1]
        ca = cb = cg = z
    elif ID in (8, 9, 10, 11):
        a, b, d = p
        ca = cb = cg = z
    elif ID in (12, 13):
        a, b, d = p[:3]
        ca = cg = z
        cb = cosd(c, p[3])
    else:
        a, b, d = p[:3]
        ca, cb, cg = [cosd(c, x) for x in p[3:]]
    want = [[a * a, a * b * cg, a * d * cb], [a * b * cg, b * b, b * d * ca], [a * d * cb, b * d * ca, d * d]]
    c.eq(G, want, 'edge lengths and angles of the conventional cell are the lattice parameters', tol=1e-7)
    if ID == 5:
        c.check(B[0][1] * B[1][2] * B[2][0] >= 0, 'the trigonal axis is [111]')
        s = [B[i][0] + B[i][1] + B[i][2] for i in range(3)]
        c.eq(s, [s[0], s[0], s[0]], 'the three-fold axis of the trigonal cell is along [111]', tol=1e-7)
    D = det(B)
    c.check(D > 0, 'the conventional cell is right-handed')


def metric2(c, ID):
    m = c.mod('structrans.crystallography')
    n = [1, 2, 2, 1, 3][ID - 1]
    p = [c.real('p%d' % i, 0.5, 50) for i in range(min(n, 2))]
    if ID == 5:
        p.append(c.real('gamma', 5, 175))
    L = m.BravaisLattice(ID, c.np.array(p), dim=2)
    B = L.conventional_base()
    c.check(c.shape(B) == (2, 2), 'the conventional base is 2 x 2')
    G = gram(B)
    a = p[0]
    b = p[1] if n > 1 else a
    cg = {1: 0, 2: 0, 3: 0, 4: 0.5, 5: None}[ID]
    if ID == 5:
        cg = cosd(c, p[2])
    c.eq(G, [[a * a, a * b * cg], [a * b * cg, b * b]],
         'edge lengths and angle of the conventional cell are the lattice parameters', tol=1e-7)
    c.check(det(B) > 0, 'the conventional cell is right-handed')


def echo(c, ID, dim):
    """the parameters and the type are reported back"""
    m = c.mod('structrans.crystallography')
    if dim == 3:
        p = params3(c, ID)
        if ID == 14:
            c.assume(valid_triclinic(c, p))
        L = m.BravaisLattice(ID, list(p))
    else:
        n = [1, 2, 2, 1, 3][ID - 1]
        p = [c.real('p%d' % i, 0.5, 50) for i in range(n)]
        if ID == 5:
            p[2] = c.real('gamma', 5, 175)
        L = m.BravaisLattice(ID, list(p), dim)
    c.eq(L.lat_param(), p, 'the lattice parameters are reported unchanged')
    c.check(L.Bravais_id() == ID, 'the type is reported unchanged')
    c.check(L.dimension() == dim, 'the dimension is reported')
    if len(p) == 1:
        L2 = m.BravaisLattice(ID, p[0], dim)
        c.eq(L2.base(), L.base(), 'a single parameter may be given as a number')


CASES = [('3d-%d' % i, metric3, dict(ID=i), dict(time=40)) for i in range(1, 15)]
CASES += [('2d-%d' % i, metric2, dict(ID=i), dict(time=40)) for i in range(1, 6)]
CASES += [('echo3-%d' % i, echo, dict(ID=i, dim=3), dict(time=30)) for i in range(1, 15)]
CASES += [('echo2-%d' % i, echo, dict(ID=i, dim=2), dict(time=30)) for i in range(1, 6)]
