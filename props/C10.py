"""Matrix groups: the library groups are groups, subgroup tests, isolation of the elements."""
from props.common import cubic24, hex12, hex2d, signed_perms2, same_set, mul, tr, det, eye

BOUNDS = ('all six library groups, every pair of elements; subgroup tests on conjugates of the library groups by any rotation '
          'about a coordinate axis (any angle) and on mirror groups with any mirror direction')
OUTSIDE = 'groups of matrices of dimension other than 2 and 3; elements closer than 1e-4 to but different from a group element'


def library(c, name):
    mg = c.mod('structrans.crystallography.matrix_group')
    np = c.np
    hr, hm = hex2d(np)
    want = {'CUBIC_LAUE_GROUP': cubic24(), 'HEX_LAUE_GROUP': hex12(np), 'SQUARE_EXT_GROUP': signed_perms2(),
            'SQUARE_GROUP': [M for M in signed_perms2() if det(M) == 1], 'HEX2D_EXT_GROUP': hr + hm, 'HEX2D_GROUP': hr}[name]
    G = getattr(mg, name)
    mats = G.matrices()
    c.check(G.order() == len(want), 'order of the library group')
    c.check(same_set(c, mats, want), 'elements of the library group')
    i = c.value(c.int('i', 0, len(want) - 1))
    if i < len(mats):
        for B in mats:
            P = np.array(mats[i]).dot(np.array(B))
            c.check(c.Or(*[c.close(P, X, 1e-6) for X in mats]), 'products of elements are in the group')
        c.check(c.Or(*[c.close(np.array(mats[i]).T, X, 1e-6) for X in mats]), 'inverses of elements are in the group')
        c.check(G.hassubgroup(mg.MatrixGroup(mats[i:] + mats[:i])), 'a group is a subgroup of itself in any order')


def _rot(c, ax):
    np = c.np
    t = c.real('t', 0, 360)
    x = t * np.pi / 180
    co, si = np.cos(x), np.sin(x)
    R = {0: [[1, 0, 0], [0, co, -si], [0, si, co]], 1: [[co, 0, si], [0, 1, 0], [-si, 0, co]],
         2: [[co, -si, 0], [si, co, 0], [0, 0, 1]]}[ax]
    return np.array(R)


def conj(c, name, ax):
    """subgroup relations survive a common rotation of both groups"""
    mg = c.mod('structrans.crystallography.matrix_group')
    np = c.np
    R = _rot(c, ax)
    G = [R.dot(np.array(M)).dot(R.T) for M in getattr(mg, name).matrices()]
    idn = np.eye(3)
    two = R.dot(np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]])).dot(R.T)
    g = mg.MatrixGroup(G)
    c.check(g.hassubgroup(mg.MatrixGroup([idn, two])), 'a two element subgroup is found')
    c.check(g.hassubgroup(mg.MatrixGroup([two, idn])), 'a two element subgroup is found in any order')
    c.check(g.hassubgroup(mg.MatrixGroup(G[::-1])), 'the whole group is found')
    c.check(not g.hassubgroup(mg.MatrixGroup([idn, -idn])), 'the inversion is not a rotation')
    c.check(not g.hassubgroup(mg.MatrixGroup([idn, -two])), 'a mirror is not in a rotation group')
    c.check(not mg.MatrixGroup([idn, two]).hassubgroup(g), 'a larger group is not a subgroup')
    c.check(not g.hassubgroup(mg.MatrixGroup([idn] * (len(G) - 1))), 'the order of a subgroup divides the order of the group')


def mirror(c, name, step):
    """{1, m} is a subgroup exactly when the mirror is in the group"""
    mg = c.mod('structrans.crystallography.matrix_group')
    np = c.np
    t = c.real('t', 0, 180)
    x = 2 * t * np.pi / 180
    co, si = np.cos(x), np.sin(x)
    M = np.array([[co, si], [si, -co]])
    k = c.pick('order', [0, 1])
    sub = [np.eye(2), M] if k == 0 else [M, np.eye(2)]
    r = getattr(mg, name).hassubgroup(mg.MatrixGroup(sub))
    hit = [(np.cos(2 * step * j * np.pi / 180), np.sin(2 * step * j * np.pi / 180)) for j in range(180 // step)]
    if r:
        c.check(c.Or(*[c.And(co - a <= 1e-3, co - a >= -1e-3, si - b <= 1e-3, si - b >= -1e-3) for a, b in hit]),
                'an accepted mirror is an element of the group')
    else:
        c.check(c.And(*[c.Not(c.And(co - a <= 1e-9, co - a >= -1e-9, si - b <= 1e-9, si - b >= -1e-9)) for a, b in hit]),
                'a rejected mirror is not an element of the group')


def types(c):
    mg = c.mod('structrans.crystallography.matrix_group')
    x = c.real('x', -2, 2)
    G = mg.MatrixGroup([[[1, 0], [0, 1]]])
    c.check(c.raises(lambda: G.hassubgroup([[[1, 0], [0, 1]]]), TypeError), 'only matrix groups can be subgroups')
    c.check(c.raises(lambda: G.hassubgroup(x), TypeError), 'only matrix groups can be subgroups')


def isolation(c, name):
    """changing the returned matrices does not change the group"""
    mg = c.mod('structrans.crystallography.matrix_group')
    G = getattr(mg, name)
    x = c.value(c.int('x', 2, 9))
    k = c.value(c.int('k', 0, G.order() - 1))
    ref = [[[e for e in r] for r in M] for M in G.matrices()]
    got = G.matrices()
    got[k][0][0] = x
    got.pop()
    c.check(G.order() == len(ref), 'the order stays')
    c.check(c.close(G.matrices(), ref, 1e-12), 'the elements of a group are not changed through the returned matrices')


CASES = [('library-' + n, library, dict(name=n), dict(time=40)) for n in
         ('CUBIC_LAUE_GROUP', 'HEX_LAUE_GROUP', 'SQUARE_EXT_GROUP', 'SQUARE_GROUP', 'HEX2D_EXT_GROUP', 'HEX2D_GROUP')]
CASES += [('conj-%s-%d' % (n, a), conj, dict(name=n, ax=a), dict(time=40)) for n, a in
          (('CUBIC_LAUE_GROUP', 0), ('CUBIC_LAUE_GROUP', 1), ('CUBIC_LAUE_GROUP', 2), ('HEX_LAUE_GROUP', 0), ('HEX_LAUE_GROUP', 1))]
CASES += [('mirror-sq', mirror, dict(name='SQUARE_EXT_GROUP', step=45), dict(time=40)),
          ('mirror-hex', mirror, dict(name='HEX2D_EXT_GROUP', step=30), dict(time=40)),
          ('types', types, {}, {})]
CASES += [('isolation-' + n, isolation, dict(name=n), {}) for n in ('CUBIC_LAUE_GROUP', 'HEX2D_EXT_GROUP', 'SQUARE_GROUP')]
