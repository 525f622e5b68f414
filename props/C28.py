"""Validation of transformation stretches."""
from props.common import det

BOUNDS = ('all symmetric and asymmetric real 3 x 3 matrices with entries in +-3, as arrays and nested lists; the forms with 1 to 4 numbers with '
          'any reals in +-3')
OUTSIDE = 'matrices that are symmetric only up to rounding (refused by design); determinants within 1e-9 of zero'


def _mart(c, kind):
    m = c.mod('structrans.marttrans.martensite')
    return m.Martensite()


def _minors(U):
    a, b, d = U[0]
    e, f, g = U[1][1], U[1][2], U[2][2]
    return [a, a * e - b * b, a * (e * g - f * f) - b * (b * g - f * d) + d * (b * f - e * d)]


def matrix(c, aslist):
    """accepted iff symmetric positive definite"""
    M0 = _mart(c, 0)
    a, b, d, e, f, g = [c.real(k, -3, 3) for k in 'abdefg']
    U = [[a, b, d], [b, e, f], [d, f, g]]
    ms = _minors(U)
    for x in ms:
        c.assume(c.Or(x >= 1e-6, x <= -1e-6))
    try:
        M = M0.setU(U if aslist else c.np.array(U))
    except TypeError:
        c.check(c.Not(c.And(*[x > 0 for x in ms])), 'a positive definite stretch is accepted')
        return
    c.check(c.And(*[x > 0 for x in ms]), 'a stretch that is not positive definite is refused')
    c.eq(M.getU(), U, 'the stretch is the given matrix')


def asym(c, aslist):
    M0 = _mart(c, 0)
    U = [[c.real('u%d%d' % (i, j), -3, 3) for j in range(3)] for i in range(3)]
    k = c.pick('k', [(0, 1), (0, 2), (1, 2)])
    d = U[k[0]][k[1]] - U[k[1]][k[0]]
    c.assume(c.Or(d >= 1e-3, d <= -1e-3))
    c.check(c.raises(lambda: M0.setU(U if aslist else c.np.array(U)), TypeError), 'an asymmetric matrix is refused')


def forms(c, n):
    M0 = _mart(c, 0)
    x = [c.real('x%d' % i, -3, 3) for i in range(n)]
    U = {1: lambda: [[x[0], 0, 0], [0, x[0], 0], [0, 0, x[0]]],
         2: lambda: [[x[0], 0, 0], [0, x[0], 0], [0, 0, x[1]]],
         3: lambda: [[x[0], x[1], 0], [x[1], x[0], 0], [0, 0, x[2]]],
         4: lambda: [[x[0], x[1], 0], [x[1], x[2], 0], [0, 0, x[3]]]}[n]()
    ms = _minors(U)
    for v in ms:
        c.assume(c.Or(v >= 1e-6, v <= -1e-6))
    try:
        M = M0.setU(*x)
    except TypeError:
        c.check(c.Not(c.And(*[v > 0 for v in ms])), 'a positive definite stretch is accepted')
        return
    c.check(c.And(*[v > 0 for v in ms]), 'a stretch that is not positive definite is refused')
    c.eq(M.getU(), U, 'tetragonal, orthorhombic and monoclinic stretches from their entries')


def wrong(c):
    M0 = _mart(c, 0)
    x = c.real('x', 0.5, 2)
    np = c.np
    bad = c.pick('bad', [0, 1, 2, 3, 4, 5])
    arg = [lambda: ([[x, 0], [0, x]],), lambda: ([x, x, x],), lambda: (np.array([[x, 0, 0], [0, x, 0]]),), lambda: (np.array([[[x]]]),), lambda: (),
           lambda: ([],)][bad]()
    c.check(c.raises(lambda: M0.setU(*arg), TypeError), 'other shapes are refused')


def pair(c):
    """twin pairs are made of positive definite symmetric matrices"""
    t = c.mod('structrans.marttrans.twin')
    np = c.np
    x, y, w = c.real('x', 0.5, 2), c.real('y', 0.5, 2), c.real('w', 0.01, 2)
    good = np.array([[x, 0 * x, 0 * x], [0 * x, x, 0 * x], [0 * x, 0 * x, y]])
    bad = [np.array([[x, w, 0 * x], [0 * x, x, 0 * x], [0 * x, 0 * x, y]]), np.array([[-x, 0 * x, 0 * x], [0 * x, -x, 0 * x], [0 * x, 0 * x, y]]),
           np.array([[x, 0 * x, 0 * x], [0 * x, x, 0 * x], [0 * x, 0 * x, -w]]), np.array([[x, 0 * x], [0 * x, y]])][c.pick('bad', [0, 1, 2, 3])]
    c.check(c.raises(lambda: t.TwinPair(good, bad), ValueError), 'an invalid second variant is refused')
    c.check(c.raises(lambda: t.TwinPair(bad, good), ValueError), 'an invalid first variant is refused')


def micro(c, n):
    m = c.mod('structrans.marttrans.Compatibility')
    M = m.Microstructure()
    x = [c.real('x%d' % i, 0.5, 3) for i in range(n)]
    U = {1: lambda: [[x[0], 0, 0], [0, x[0], 0], [0, 0, x[0]]],
         2: lambda: [[x[0], 0, 0], [0, x[0], 0], [0, 0, x[1]]],
         3: lambda: [[x[0], x[1], 0], [x[1], x[0], 0], [0, 0, x[2]]],
         4: lambda: [[x[0], x[1], 0], [x[1], x[2], 0], [0, 0, x[3]]]}[n]()
    M.setU(*x)
    c.eq(M.getU(), U, 'stretches from their entries')
    M.setU(c.np.array(U) * 2)
    c.eq(M.getU(), [[2 * v for v in r] for r in U], 'stretch from a matrix')
    k = c.pick('id', [1, 4, 5, 6, 8, 12, 14])
    M.setLaue(k)
    c.check(M.getLaue().order() == {1: 24, 4: 12, 5: 6, 6: 8, 8: 4, 12: 2, 14: 1}[k], 'order of the Laue group')
    c.check(c.raises(lambda: M.setLaue(15)) and c.raises(lambda: M.setLaue(0)), 'unknown types are refused')
    c.check(c.raises(lambda: M.setU(1, 2, 3, 4, 5)), 'too many entries')


CASES = [('matrix-array', matrix, dict(aslist=False), dict(time=60)), ('matrix-list', matrix, dict(aslist=True), dict(time=60)),
         ('asym-array', asym, dict(aslist=False), dict(time=60)), ('asym-list', asym, dict(aslist=True), dict(time=60))]
CASES += [('forms-%d' % n, forms, dict(n=n), dict(time=60)) for n in (1, 2, 3, 4)]
CASES += [('wrong', wrong, {}, {}), ('pair', pair, {}, {})]
CASES += [('micro-%d' % n, micro, dict(n=n), {}) for n in (1, 2, 3, 4)]
