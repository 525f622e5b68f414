"""Martensite variants."""
from props.common import cubic24, hex12, holohedry3

BOUNDS = ('parent groups of all 14 lattice types; stretch tensors of tetragonal, orthorhombic (edge and face diagonal), trigonal, monoclinic and '
          'triclinic symmetry with any real principal entries in the boxes of the cases (0.8..1.25, entries that break the symmetry '
          'by at least 0.0005)')
OUTSIDE = ('stretch tensors within 0.0005 of a higher symmetry (tolerance zone); symmetry axes of the stretch that are not parallel to those of '
           'the parent')


def _U(c, fam):
    np = c.np
    a = c.real('a', 0.8, 1.25)
    z = 0 * a
    if fam == 'cubic':
        return np.array([[a, z, z], [z, a, z], [z, z, a]])
    if fam[:4] == 'tetr':
        b = c.real('b', 0.8, 1.25)
        c.assume(c.Or(b - a >= 5e-4, a - b >= 5e-4))
        d = {'x': (b, a, a), 'y': (a, b, a), 'z': (a, a, b)}[fam[4]]
        return np.array([[d[0], z, z], [z, d[1], z], [z, z, d[2]]])
    if fam == 'orth':
        a, b, d = c.real('u', 0.8, 0.95), c.real('v', 0.97, 1.05), c.real('w', 1.08, 1.25)
        v = c.pick('order', [(a, b, d), (d, a, b), (b, a, d)])
        return np.array([[v[0], z, z], [z, v[1], z], [z, z, v[2]]])
    d = c.real('d', 5e-4, 0.12) * c.pick('sign', [1, -1])
    if fam == 'trig':
        return np.array([[a, d, d], [d, a, d], [d, d, a]])
    if fam == 'face':
        b = c.real('b', 0.8, 1.25)
        for q in (a, a + d, a - d):
            c.assume(c.Or(b - q >= 5e-4, q - b >= 5e-4))
        return c.pick('plane', [0, 1, 2]), a, d, b
    u, v, w = c.real('u', 0.8, 0.9), c.real('v', 1.0, 1.05), c.real('w', 1.15, 1.25)
    if fam == 'monohex':
        # away from the directions of the hexagonal axes
        c.assume(c.And(d <= 0.07, d >= -0.07))
        return np.array([[u, d, z], [d, v, z], [z, z, w]])
    if fam == 'tric1':
        u, v, w = 0.85, 1.02, 1.2
        e = c.real('e', 0.02, 0.1)
        return np.array([[u + z, d, e], [d, v + z, z], [e, z, w + z]])
    if fam == 'monoz':
        return np.array([[u, d, z], [d, v, z], [z, z, w]])
    if fam == 'monoy':
        return np.array([[u, z, d], [z, v, z], [d, z, w]])
    if fam == 'tric':
        e = c.real('e', 0.02, 0.1)
        return np.array([[u, d, e], [d, v, z], [e, z, w]])


def _tensor(c, fam):
    U = _U(c, fam)
    if isinstance(U, tuple):
        k, a, d, b = U
        z = 0 * a
        rows = [[None] * 3 for _ in range(3)]
        i, j = [(0, 1), (1, 2), (0, 2)][k]
        for p in range(3):
            for q in range(3):
                rows[p][q] = z
        rows[i][i] = rows[j][j] = a
        rows[i][j] = rows[j][i] = d
        rows[3 - i - j][3 - i - j] = b
        return c.np.array(rows)
    return U


def _check(c, M, U, G, n):
    np = c.np
    c.check(M.isreversible(), 'the transformation is reversible')
    vs = M.getvariants()
    if not c.check(len(vs) == n, 'number of variants = order of the parent group / order of the symmetry group of the stretch'):
        return
    c.eq(vs[0], U, 'the first variant is the given stretch')
    for i in range(n):
        c.eq(M.getvariant(i + 1), vs[i], 'variants are numbered from one')
        for j in range(i):
            c.check(c.Not(c.close(vs[i], vs[j], 1e-5)), 'the variants are distinct')
    idx = M.getLaueidx()
    seen = [[int(c.value(x)) for x in r] for r in idx]
    c.check(len(seen) == n and sorted(sum(seen, [])) == list(range(len(G))), 'every parent operation leads to exactly one variant')
    mats = [np.array(Q) for Q in M.getLaue().matrices()]
    for j, r in enumerate(seen):
        for i in r:
            if j < len(vs) and i < len(mats):
                c.eq(mats[i].dot(U).dot(mats[i].T), vs[j], 'the listed operations map the stretch to the variant', tol=1e-7)
    for Q in G:
        V = np.array(Q).dot(U).dot(np.array(Q).T)
        c.check(c.Or(*[c.close(V, v, 1e-6) for v in vs]), 'every equivalent stretch is a variant')


def variants(c, fam, parent, n):
    m = c.mod('structrans')
    U = _tensor(c, fam)
    M0 = m.Martensite() if parent is None else m.Martensite().setLaue(parent)
    M = M0.setU(U)
    G = holohedry3(c.np, parent or 1)
    _check(c, M, U, G, n)


def ctor(c, fam, parent, n):
    """given to the constructor"""
    m = c.mod('structrans')
    U = _tensor(c, fam)
    G = m.BravaisLattice(parent, {6: [1.0, 1.25], 8: [1.0, 1.25, 1.5]}[parent]).Laue_group()
    _check(c, m.Martensite(U, G), U, holohedry3(c.np, parent), n)
    M = m.Martensite(U).setLaue(G)
    _check(c, M, U, holohedry3(c.np, parent), n)


def irreversible(c, fam, parent):
    m = c.mod('structrans')
    U = _tensor(c, fam)
    M = m.Martensite().setLaue(parent).setU(U)
    c.check(not M.isreversible(), 'a symmetry of the stretch that is not one of the parent makes the transformation irreversible')
    c.check(c.raises(M.getvariants, AttributeError), 'no variants of an irreversible transformation')
    c.check(c.raises(lambda: M.getvariant(1), AttributeError), 'no variants of an irreversible transformation')


def history(c):
    """setting the stretch or the group gives a new object and forgets nothing and keeps nothing"""
    m = c.mod('structrans')
    np = c.np
    a, b = c.real('a', 0.8, 0.95), c.real('b', 1.05, 1.25)
    z = 0 * a
    U = np.array([[a, z, z], [z, a, z], [z, z, b]])
    W = np.array([[a, z, z], [z, 1 + z, z], [z, z, b]])
    M0 = m.Martensite()
    c.check(c.raises(M0.getU, AttributeError), 'no stretch yet')
    c.check(c.raises(M0.isreversible, AttributeError), 'no stretch yet')
    M1 = M0.setU(U)
    c.check(c.raises(M0.getU, AttributeError), 'the original object is not changed')
    c.check(len(M1.getvariants()) == 3, 'tetragonal variants')
    M2 = M1.setU(W)
    c.check(len(M2.getvariants()) == 6, 'variants of the new stretch')
    c.eq(M1.getU(), U, 'the original object is not changed')
    M3 = M2.setLaue(6)
    c.check(len(M3.getvariants()) == 2, 'variants for the new parent group')
    c.check(len(M2.getvariants()) == 6 and len(M1.getvariants()) == 3, 'the original objects are not changed')
    c.check(M2.getLaue().order() == 24 and M3.getLaue().order() == 8 and M3.setU(U).getLaue().order() == 8, 'the parent group is kept')


def laue(c):
    m = c.mod('structrans')
    k = c.pick('id', range(1, 15))
    M = m.Martensite().setLaue(k)
    want = [24, 24, 24, 12, 6, 8, 8, 4, 4, 4, 4, 2, 2, 1][k - 1]
    c.check(M.getLaue().order() == want, 'order of the Laue group of the lattice type')
    x = c.int('x', -5, 30)
    c.assume(c.Or(x < 1, x > 14))
    c.check(c.raises(lambda: m.Martensite().setLaue(c.value(x)), ValueError), 'an unknown lattice type is refused')
    c.check(c.raises(lambda: m.Martensite().setLaue('cubic'), ValueError), 'other arguments are refused')


V = [('cubic', None, 1), ('tetrx', None, 3), ('tetry', 1, 3), ('tetrz', 2, 3), ('orth', None, 6), ('face', None, 6), ('trig', None, 4),
     ('monoz', None, 12), ('monoy', 3, 12), ('tric1', None, 24),
     ('tetrz', 6, 1), ('orth', 6, 2), ('orth', 7, 2), ('monoz', 6, 4), ('monoy', 6, 4), ('tric', 7, 8), ('trig', 5, 1), ('tric1', 5, 6), ('orth', 8, 1),
     ('monoz', 8, 2), ('tric1', 11, 4), ('orth', 4, 3), ('monohex', 4, 6), ('monoy', 4, 6), ('tric1', 4, 12), ('monoy', 12, 1), ('tric1', 13, 2), ('tric', 14, 1)]
CASES = [('variants-%s-%s' % (f, p or 'default'), variants, dict(fam=f, parent=p, n=n), dict(time=150)) for f, p, n in V]
CASES += [('variants-tric-default', variants, dict(fam='tric', parent=None, n=24), dict(time=60, tier='thorough'))]
CASES += [('given-%s-%d' % (f, p), ctor, dict(fam=f, parent=p, n=n), dict(time=60)) for f, p, n in [('orth', 6, 2), ('monoz', 8, 2)]]
CASES += [('irreversible-%s-%d' % (f, p), irreversible, dict(fam=f, parent=p), dict(time=60)) for f, p in
          [('cubic', 6), ('tetrx', 6), ('tetrz', 8), ('tetrz', 4), ('trig', 6), ('orth', 5), ('orth', 12), ('monoz', 12), ('trig', 4), ('monoy', 14)]]
CASES += [('history', history, {}, {}), ('laue', laue, {}, {})]
