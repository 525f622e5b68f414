"""Divisors."""
BOUNDS = 'n in 1..120 (thorough 1..400); membership decided for a symbolic candidate divisor'
OUTSIDE = 'larger n'


def divs(c, lo, hi):
    m = c.mod('structrans.util')
    n = c.value(c.int('n', lo, hi))
    L = list(m.divisors(n))
    d = c.int('d', 1, hi)
    q = c.int('q', 1, hi)
    for x in L:
        c.check(c.And(x >= 1, x <= n), 'a listed divisor lies in 1..n')
        c.check(n % int(x) == 0, 'a listed number divides n')
    c.check(len(set(int(x) for x in L)) == len(L), 'no divisor is listed twice')
    c.check(all(L[i] < L[i + 1] for i in range(len(L) - 1)), 'divisors are increasing')
    c.assume(d * q == n)
    c.check(c.Or(*[d == x for x in L]), 'every divisor of n is listed')


CASES = [('n%d' % lo, divs, dict(lo=lo, hi=lo + 19), dict(time=40)) for lo in range(1, 121, 20)]
CASES += [('n%d' % lo, divs, dict(lo=lo, hi=lo + 19), dict(time=40, tier='thorough')) for lo in range(121, 401, 20)]
