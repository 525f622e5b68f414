"""Orientation relationships: directions and planes under a lattice correspondence."""
from props.common import det

BOUNDS = ('any real correspondence matrix (2D, 3D) with entries in +-4 and |det| at least 0.1, any real indices in +-10, '
          'single indices and lists of up to four')
OUTSIDE = 'longer lists (converted member by member)'


def _L(c, n):
    L = c.mat('l', n, n, -4, 4)
    d = det([[L[i][j] for j in range(n)] for i in range(n)])
    c.assume(c.Or(d >= 0.1, d <= -0.1))
    return L


def _rows(r, n, k):
    """rows of the result, a single index may come back flat"""
    if k == 1 and not hasattr(r[0], '__len__'):
        return [r]
    return list(r)


def single(c, n, form):
    m = c.mod('structrans')
    np = c.np
    L = _L(c, n)
    v = c.vec('v', n, -10, 10)
    arg = {'list': [x for x in v], 'array': v, 'nested': [[x for x in v]]}[form]
    d = m.direc_trans(L, arg)
    p = m.plane_trans(L, arg)
    d, p = _rows(d, n, 1), _rows(p, n, 1)
    if not c.check(len(d) == 1 and len(p) == 1 and len(d[0]) == n and len(p[0]) == n, 'one index in, one index out'):
        return
    c.eq([sum(L[i][j] * d[0][j] for j in range(n)) for i in range(n)], v, 'L maps the final direction to the initial one')
    c.eq(p[0], [sum(L[j][i] * v[j] for j in range(n)) for i in range(n)], 'planes transform with the transpose')


def lists(c, n, k):
    m = c.mod('structrans')
    L = _L(c, n)
    vs = [[c.real('v%d%d' % (i, j), -10, 10) for j in range(n)] for i in range(k)]
    arg = c.np.array(vs) if c.pick('form', [0, 1]) else vs
    d = m.direc_trans(L, arg)
    p = m.plane_trans(L, arg)
    if not c.check(len(d) == k and len(p) == k and len(d[0]) == n and len(p[0]) == n, 'a list of indices gives a list of indices'):
        return
    for a in range(k):
        c.eq([sum(L[i][j] * d[a][j] for j in range(n)) for i in range(n)], vs[a], 'L maps every final direction to its initial one')
        c.eq(p[a], [sum(L[j][i] * vs[a][j] for j in range(n)) for i in range(n)], 'planes transform with the transpose')
        for b in range(k):
            # a direction lies in a plane in one phase iff it does in the other
            c.eq(sum(p[a][i] * d[b][i] for i in range(n)), sum(vs[a][i] * vs[b][i] for i in range(n)),
                 'the product of plane and direction indices is preserved', tol=1e-6)


CASES = [('single-%d-%s' % (n, f), single, dict(n=n, form=f), {}) for n in (2, 3) for f in ('list', 'array', 'nested')]
CASES += [('list-%d-%d' % (n, k), lists, dict(n=n, k=k), {}) for n in (2, 3) for k in (2, 3, 4)]
