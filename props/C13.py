"""Rotation matrices."""
import itertools
from props.common import mul, det, eye

BOUNDS = ('Euler angles: all 27 axis sequences with three arbitrary real angles in -720..720 degrees (or -12..12 rad); rotations '
          'about any axis with components in +-10 and length at least 0.1 by any angle; screws of order 2, 3, 4, 6 with any '
          'translation index 0..12 about any axis')
OUTSIDE = 'rounding; zero length axes'


def _canon(np, a, x):
    co, si = np.cos(x), np.sin(x)
    return {'X': [[1, 0, 0], [0, co, -si], [0, si, co]], 'Y': [[co, 0, si], [0, 1, 0], [-si, 0, co]],
            'Z': [[co, -si, 0], [si, co, 0], [0, 0, 1]]}[a]


def euler(c, first, unit):
    m = c.mod('structrans.util.utils')
    np = c.np
    b = 720 if unit == 'deg' else 12
    x = [c.real('x%d' % i, -b, b) for i in range(3)]
    k = c.choice('seq', 9)
    order = first + 'XYZ'[k // 3] + 'XYZ'[k % 3]
    f = np.pi / 180 if unit == 'deg' else 1
    R = eye(3)
    for i in range(3):
        R = mul(_canon(np, order[i], x[i] * f), R)
    got = m.Euler(x, order=order, unit=unit)
    c.eq(got, R, 'the rotations are applied one after the other about the fixed axes')
    c.eq(m.Euler(x, order=order.lower(), unit=unit), R, 'the axis names are not case sensitive')
    if unit == 'deg':
        c.eq(m.Euler(x, order=order), R, 'angles are in degrees by default')
        if order == 'ZXZ':
            c.eq(m.Euler(x), R, 'the default order is ZXZ')


def euler_bad(c):
    m = c.mod('structrans.util.utils')
    x = [c.real('x%d' % i, -360, 360) for i in range(4)]
    for bad in ((x[:2], 'ZXZ'), (x, 'ZXZ'), (x[:3], 'ZX'), (x[:3], 'ZXZX'), (x[:3], 'ZXA'), (x[:3], 'QXZ'), (x[:3], 'Z Z')):
        c.check(c.raises(lambda: m.Euler(bad[0], order=bad[1]), ValueError), 'wrong sequences are refused')


def _rodrigues(c, t, a):
    """rotation matrix about the unit axis a"""
    np = c.np
    co, si = np.cos(t), np.sin(t)
    K = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
    return [[co * (1 if i == j else 0) + si * K[i][j] + (1 - co) * a[i] * a[j] for j in range(3)] for i in range(3)]


def rot(c, axes, unit):
    """rotation about an axis of a family"""
    m = c.mod('structrans.util.utils')
    np = c.np
    b = 720 if unit == 'deg' else 12
    t = c.real('t', -b, b)
    f = np.pi / 180 if unit == 'deg' else 1
    s = c.real('s', 0.1, 10)
    if axes == 'list':
        u = c.pick('axis', [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [0.6, 0.8, 0], [0.8, -0.6, 0],
                            [2 / 3., 1 / 3., -2 / 3.], [0, 0.6, -0.8], [-12 / 13., 5 / 13., 0], [0.96, 0, 0.28], [-0.96, 0, 0.28]])
        ax = np.array([s * v for v in u])
        if c.choice('tolist', 2):
            ax = [s * v for v in u]
    else:
        # unit vectors (2p, 1 - p^2, 0) / (1 + p^2) in the three planes
        p = c.real('p', -1, 1)
        w = 1 + p * p
        i = {'yz': (1, 2, 0), 'zx': (2, 0, 1), 'xy': (0, 1, 2)}[axes]
        u = [0, 0, 0]
        u[i[0]], u[i[1]] = 2 * p / w, (1 - p * p) / w
        u[i[2]] = 0 * p
        sg = c.pick('sign', [1, -1])
        u = [sg * v for v in u]
        ax = np.array(u)
    R = m.rotation(t, ax, unit=unit)
    c.eq(R, _rodrigues(c, t * f, u), 'the rotation is by the given angle about the given axis, right handed', tol=1e-7)
    if unit == 'deg':
        c.eq(m.rotation(t, ax), R, 'angles are in degrees by default')


def rot_any(c):
    """a rotation about any axis is orthogonal and fixes the axis"""
    m = c.mod('structrans.util.utils')
    np = c.np
    t = c.real('t', -720, 720)
    v = [c.real('v%d' % i, -10, 10) for i in range(3)]
    c.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] >= 0.01)
    R = m.rotation(t, np.array(v))
    Rv = [sum(R[i][j] * v[j] for j in range(3)) for i in range(3)]
    c.eq(Rv, v, 'the axis is fixed', tol=1e-7)
    c.eq(R[0][0] + R[1][1] + R[2][2], 1 + 2 * np.cos(t * np.pi / 180), 'the trace is that of the angle', tol=1e-7)


def screw(c, n):
    m = c.mod('structrans.crystallography.spacegroup')
    np = c.np
    s = c.real('s', 0.1, 10)
    p = c.value(c.int('p', 0, 12))
    u = c.pick('axis', [[1, 0, 0], [0, -1, 0], [0, 0, 1], [0.6, 0, 0.8], [2 / 3., 1 / 3., -2 / 3.]])
    T = [s * v for v in u]
    Q, tr = m.skew(n, p, T if c.choice('list', 2) else np.array(T))
    c.eq(Q, _rodrigues(c, 2 * np.pi / n, u), 'the rotation of a screw of order n is 2 pi / n about the axis', tol=1e-7)
    # n applications of the screw are a lattice translation along the axis, the fraction is p/n up to whole vectors
    k = [x * n for x in tr]
    d = sum(k[i] * u[i] for i in range(3)) / s
    c.eq(k, [d * v * s for v in u], 'the translation is along the axis', tol=1e-7)
    c.check(c.is_int((d - p) / n, 1e-6), 'the translation is p/n of the lattice vector up to whole vectors')
    c.check(c.And(d >= -1e-9, d <= n + 1e-9), 'the translation is within one lattice vector')


CASES = [('euler-%s-%s' % (f, u), euler, dict(first=f, unit=u), {}) for f in 'XYZ' for u in ('deg', 'rad')]
CASES += [('euler-bad', euler_bad, {}, {})]
CASES += [('rot-%s-%s' % (a, u), rot, dict(axes=a, unit=u), {}) for a in ('list', 'yz', 'zx', 'xy') for u in ('deg', 'rad')]
CASES += [('rot-any', rot_any, {}, {})]
CASES += [('screw-%d' % n, screw, dict(n=n), {}) for n in (2, 3, 4, 6)]
