"""Enumeration of the integer vectors in a ball, also after an interruption."""
import itertools

BOUNDS = ('dimension 1 with any radius up to 6, dimension 2 up to 3.2, dimension 3 up to 2.3, dimension 4 up to 1.8 (thorough: 8, '
          '5, 3.2, 2.3; dimension 9 up to 1.2), every radius in between except within 1e-6 of a shell; resumed at every vector '
          'of the enumeration with any smaller or equal radius')
OUTSIDE = 'radii within 1e-6 of the length of an integer vector (except exact integers)'


def _ball(n, r2):
    k = int(r2 ** 0.5) + 1
    return [v for v in itertools.product(range(-k, k + 1), repeat=n) if sum(x * x for x in v) <= r2]


def _radius(c, hi, name='r'):
    """symbolic radius away from the shells; the squared radius is between two consecutive integers"""
    r = c.real(name, 0, hi)
    n = int(hi * hi) + 1
    c.assume(c.And(*[c.Or(r * r >= k + 1e-6, r * r <= k - 1e-6) for k in range(1, n + 1)]))
    c.assume(r >= 1e-3)
    k = 0
    while r * r >= k + 1:
        k += 1
    return r, k


def _ints(c, vs):
    return [tuple(int(c.value(x)) for x in v) for v in vs]


def whole(c, n, hi):
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    r, k = _radius(c, hi)
    vs = _ints(c, m.vec_generator(r, n))
    ref = _ball(n, k)
    c.check(len(vs) == len(set(vs)), 'no vector is generated twice')
    c.check(set(vs) == set(ref), 'exactly the integer vectors within the radius are generated')


def integer(c, n, hi):
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    r = c.value(c.int('r', 0, hi))
    vs = _ints(c, m.vec_generator(r, n))
    c.check(len(vs) == len(set(vs)) and set(vs) == set(_ball(n, r * r)), 'exactly the integer vectors within an integer radius')
    vs = _ints(c, m.vec_generator(r, n, [0] * n))
    c.check(set(vs) == set(_ball(n, r * r)), 'starting at zero gives all vectors')


def resume(c, n, hi):
    """stop at the k-th vector of the ball of radius hi and continue with a radius r <= hi"""
    m = c.mod('structrans.marttrans.lat_cor.main_direct')
    full = _ints(c, m.vec_generator(hi, n))
    i = c.choice('k', len(full))
    r, k = _radius(c, hi)
    x0 = c.np.array(full[i]) if c.choice('array', 2) else list(full[i])
    vs = _ints(c, m.vec_generator(r, n, x0))
    ball = set(_ball(n, k))
    c.check(set(vs) | (set(full[:i]) & ball) >= ball, 'no vector within the smaller radius is skipped after an interruption')
    c.check(set(vs) <= ball | set([full[i]]), 'no vector outside of the radius is generated')
    c.check(len(vs) == len(set(vs)), 'no vector is generated twice after an interruption')
    c.check(not (set(vs) & set(full[:i])), 'vectors before the interruption are not generated again')


CASES = [('whole-1', whole, dict(n=1, hi=6), {}), ('whole-2', whole, dict(n=2, hi=3.2), {}),
         ('whole-3', whole, dict(n=3, hi=2.3), {}), ('whole-4', whole, dict(n=4, hi=1.8), {}),
         ('integer-1', integer, dict(n=1, hi=5), {}), ('integer-2', integer, dict(n=2, hi=5), {}),
         ('integer-3', integer, dict(n=3, hi=3), {}), ('integer-4', integer, dict(n=4, hi=2), {}),
         ('resume-1', resume, dict(n=1, hi=3.5), {}), ('resume-2', resume, dict(n=2, hi=2.1), {}),
         ('resume-3', resume, dict(n=3, hi=1.5), {}), ('resume-4', resume, dict(n=4, hi=1.2), {}),
         ('whole-1+', whole, dict(n=1, hi=8), dict(tier='thorough')), ('whole-2+', whole, dict(n=2, hi=5), dict(tier='thorough')),
         ('whole-3+', whole, dict(n=3, hi=3.2), dict(tier='thorough')), ('whole-4+', whole, dict(n=4, hi=2.3), dict(tier='thorough')),
         ('whole-9', whole, dict(n=9, hi=1.2), dict(tier='thorough')),
         ('resume-2+', resume, dict(n=2, hi=3.2), dict(tier='thorough')),
         ('resume-3+', resume, dict(n=3, hi=2.1), dict(tier='thorough'))]
