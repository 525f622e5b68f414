"""Stereographic projection: every direction at the right place of the pole figure."""

BOUNDS = ('zone axes of any length in 0.5..4 in any direction at least 5 degrees away from the c axis or on it (both signs), all directions of any length in 0.1..10, given by any polar angle and any '
          'ratio tan(theta / 2) in 0.02..0.98 to the zone axis (both hemispheres), two at a time, and directions exactly on the axis or the equator')
OUTSIDE = ('directions within 2 degrees of, but not on, the zone axis or the equator (the code rounds to six digits there); zone axes within 5 degrees of, but not on, the c axis')


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def frame(c, form):
    """(z, |z|, e1, e2): a right-handed frame e1, e2, z / |z|"""
    np = c.np
    if form in ('00l', '00-l'):
        l = c.real('l', 0.5, 4)
        s = 1 if form == '00l' else -1
        z, R = [0 * l, 0 * l, s * l], l
        e1 = [1, 0, 0]
        e2 = [0, s, 0]
    elif form == 'any':
        R, a, b = c.real('R', 0.5, 4), c.real('za', -200, 200), c.real('zb', 5, 175)
        ca, sa, cb, sb = [f(x * np.pi / 180) for x in (a, b) for f in (np.cos, np.sin)]
        z = [R * sb * ca, R * sb * sa, R * cb]
        e1 = [sa, -ca, 0]
        e2 = [cb * ca, cb * sa, -sb]
    else:
        z = [float(x) for x in form]
        R = np.sqrt(dot(form, form))
        e1 = cross(form, [1, 0, 0] if form[1] or form[2] else [0, 1, 0])
        e2 = cross(form, e1)
        n1, n2 = np.sqrt(dot(e1, e1)), np.sqrt(dot(e2, e2))
        e1, e2 = [x / n1 for x in e1], [x / n2 for x in e2]
    return z, R, e1, e2


def direction(c, n, fr, side):
    """vector at the place r (cos t, sin t) of the figure, any length"""
    z, R, e1, e2 = fr
    t, s = c.real(n + 't', -200, 200), c.real(n + 's', 0.05, 5)
    r = c.real(n + 'r', 0.02, 0.98) if side else 1
    ct, st = c.np.cos(t * c.np.pi / 180), c.np.sin(t * c.np.pi / 180)
    p = [s * (2 * r * ct * e1[i] + 2 * r * st * e2[i] + side * (1 - r * r) * z[i] / R) for i in range(3)]
    return p, r * ct, r * st


def pair(c, form, figure, sides):
    """lengths, angles and orientation of two projections do not depend on the choice of the axes of the figure"""
    m = c.mod('structrans.crystallography.stereogram')
    np = c.np
    fr = frame(c, form)
    z, R = fr[:2]
    ds = [direction(c, n, fr, s) for n, s in zip('pq', sides)]
    if figure == 'list':
        P = m.pole_figure([d[0] for d in ds], np.array(z))
    elif figure == 'array':
        P = m.pole_figure(np.array([d[0] for d in ds]), np.array(z))
    else:
        P = [m.stereo_proj(np.array(d[0]), np.array(z)) for d in ds]
    if not c.check(c.shape(P) == (2, 2), 'two coordinates for each direction'):
        return
    (_, u, v), (_, x, y) = ds
    R2 = dot(z, z)
    c.eq(dot(P[0], P[0]), (u * u + v * v) * R2, 'the distance from the centre is R tan(theta / 2)', tol=1e-5)
    c.eq(dot(P[1], P[1]), (x * x + y * y) * R2, 'the distance from the centre is R tan(theta / 2)', tol=1e-5)
    c.eq(dot(P[0], P[1]), (u * x + v * y) * R2, 'the angle between the projections', tol=1e-5)
    c.eq(P[0][0] * P[1][1] - P[0][1] * P[1][0], (u * y - v * x) * R2, 'the projections are seen from the tip of the zone axis', tol=1e-5)


def single(c, form):
    """a single triplet; the zone axis itself; no direction; other shapes"""
    m = c.mod('structrans.crystallography.stereogram')
    np = c.np
    fr = frame(c, form)
    z, R = fr[:2]
    p, u, v = direction(c, 'p', fr, c.pick('side', [1, -1]))
    P = m.pole_figure(p, np.array(z))
    if c.check(c.shape(P) == (1, 2), 'one row for a single triplet'):
        c.eq(dot(P[0], P[0]), (u * u + v * v) * dot(z, z), 'the distance from the centre is R tan(theta / 2)', tol=1e-5)
        c.eq(P[0], m.stereo_proj(np.array(p), np.array(z)), 'the figure consists of the projections', tol=1e-9)
    w = c.real('w', 0.1, 3)
    for k in (w, -w):
        c.eq(m.stereo_proj(np.array([k * x for x in z]), np.array(z)), [0, 0], 'the zone axis is in the centre', tol=1e-6)
    c.eq(m.stereo_proj(np.array([0 * w, 0 * w, 0 * w]), np.array(z)), [0, 0], 'no direction', tol=1e-6)
    for bad in ([p[:2], p[:2]], [[p]], [p + [w]], p[:2]):
        c.check(m.pole_figure(bad, np.array(z)) is None, 'only triplets')


ZS = [[1, 0, 0], [1, 1, 0], [1, 1, 1], [1, -2, 3], [0, 0, 2], [0, -3, -4], [2, 1, -2], [-1, 0, 0]]
CASES = []
for _i, _z in enumerate(['00l', '00-l', 'any'] + ZS):
    _n = _z if isinstance(_z, str) else '.'.join(map(str, _z))
    for _s in ((1, 1), (1, -1), (-1, -1)):
        CASES.append(('pair-%s-%s' % (_n, {2: 'upper', 0: 'both', -2: 'lower'}[sum(_s)]), pair, dict(form=_z, figure=['no', 'list', 'array'][(_i + sum(_s)) % 3], sides=_s), dict(time=60)))
    CASES.append(('single-' + _n, single, dict(form=_z), dict(time=60)))
    if isinstance(_z, str):
        for _s in ((0, 1), (-1, 0), (0, 0)):
            CASES.append(('equator-%s-%d' % (_n, _s[0] * 2 - _s[1]), pair, dict(form=_z, figure='list', sides=_s), dict(time=60)))
