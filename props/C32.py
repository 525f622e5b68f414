"""Descriptions: printed values are the values of the objects under their own names."""
import re
from props.common import det, valid_triclinic

BOUNDS = ('all 19 Bravais types with any real lengths in 0.1..90 and angles in 61..119 degrees; lattices with any real base with entries in +-5 (2D, 3D); '
          'printed reports of up to two solutions for square and hexagonal to rectangular lattices with any cell lengths in the boxes and any distances in 0.01..2')
OUTSIDE = 'digits beyond those printed (six for lattice parameters, the formats of the report); log files'

NAMES3 = [('cubic p',), ('cubic f', 'face'), ('cubic i', 'body'), ('hexagonal p',), ('rhombohedral p',), ('tetragonal p',), ('tetragonal i', 'body'),
          ('orthorhombic p',), ('orthorhombic c', 'base'), ('orthorhombic f', 'face'), ('orthorhombic i', 'body'), ('monoclinic p',), ('monoclinic c', 'base'),
          ('triclinic p',)]
NAMES2 = [('square p',), ('rectangular p',), ('rectangular i', 'center'), ('hexagonal p',), ('oblique p',)]
ABC = ['a', 'b', 'c', 'alpha', 'beta', 'gamma']
LAB3 = {1: 'a', 2: 'a', 3: 'a', 4: 'ac', 5: ['a', 'alpha'], 6: 'ac', 7: 'ac', 8: 'abc', 9: 'abc', 10: 'abc', 11: 'abc', 12: ['a', 'b', 'c', 'beta'],
        13: ['a', 'b', 'c', 'beta'], 14: ABC}
LAB2 = {1: 'a', 2: 'ab', 3: 'ab', 4: 'a', 5: ['a', 'b', 'gamma']}


def bravais(c, dim, IDs):
    m = c.mod('structrans')
    ID = c.pick('ID', IDs)
    labels = list((LAB3 if dim == 3 else LAB2)[ID])
    p = [c.real('p%d' % i, 61, 119) if len(l) > 1 else c.real('p%d' % i, 0.1, 90) for i, l in enumerate(labels)]
    if ID == 14:
        c.assume(valid_triclinic(c, p))
    L = m.BravaisLattice(ID, list(p), dim)
    text, vals = c.fields(str(L))
    name = (NAMES3 if dim == 3 else NAMES2)[ID - 1]
    c.check(all(n in text.lower() for n in name), 'the name of the type')
    c.check(len(vals) == len(p) + 1, 'the dimension and every parameter once')
    c.check(len(vals) > 0 and c.printed(vals[0], dim, 1e-9), 'the dimension')
    got = {}
    k = 0
    for piece in re.split('(#)', text):
        if piece == '#':
            k += 1
        else:
            mm = re.search(r'(\w+)\s*=\s*$', piece)
            if mm:
                got[mm.group(1)] = vals[k]
    c.check(sorted(got) == sorted(labels), 'one entry for each lattice parameter')
    for l, x in zip(labels, p):
        if l in got:
            c.check(c.printed(got[l], x, 1e-5), 'the value of ' + l)


def lattice(c, n):
    m = c.mod('structrans')
    E = [[c.real('e%d%d' % (i, j), -5, 5) for j in range(n)] for i in range(n)]
    d = det(E)
    c.assume(c.Or(d >= 0.1, d <= -0.1))
    L = m.Lattice(c.np.array(E))
    text, vals = c.fields(str(L))
    want = [n]
    for j in range(n):
        want += [j + 1] + [E[i][j] for i in range(n)]
    if c.check(len(vals) == len(want), 'the dimension and the base vectors'):
        for x, y in zip(vals, want):
            c.check(c.printed(x, y, 1e-6), 'the base vectors are the columns of the base')


def report(c, ia, pa, nsol, dist, two=1):
    """the printed solutions are the returned ones"""
    MOD = 'structrans.marttrans.lat_cor.main_hnf'
    LO = 'structrans.marttrans.lat_cor.lat_opt'
    m = c.mod(MOD)
    np = c.np
    c.int_mode('fork')
    a, b = c.real('a', 0.8, 0.95), c.real('b', 1.05, 1.3)
    d = [c.real('d0', 0.01, 0.8), c.real('d1', 0.9, 2)]
    Ls = [[[1, 0], [0, 1]], [[1, 1], [0, 1]]]

    n = [0]

    def opt(E1, E2, **kw):
        n[0] += 1
        if two > 1:
            # one solution for each sublattice
            return {'lopt': [np.array(Ls[0])], 'dopt': [d[n[0] - 1] if n[0] <= 2 else 3.0 + n[0]]}
        return {'lopt': [np.array(x) for x in Ls], 'dopt': list(d)}
    c.stub('lat_opt', opt, MOD, LO)
    sols, out = c.capture(lambda: m.lat_cor(ia, pa, 2, [a, two * b], dim=2, nsol=nsol, disp=1, vol_th=0.1, dist=dist))
    if not c.check('Solution' in out, 'the solutions are printed'):
        return
    # without the timing
    out = '\n'.join(x for x in out[out.index('Solution'):].split('\n') if 'sec' not in x and 'one in' not in x)
    text, vals = c.fields(out)
    c.check(dist.lower() in text.lower(), 'the name of the distance')
    want = []
    for i, s in enumerate(sols):
        want += [(i + 1, 1e-9), (nsol, 1e-9)]
        for j in range(2):
            want += [(s['cor'][k, j], 6e-3) for k in range(2)] + [(1 if k == j else 0, 1e-9) for k in range(2)]
        want += [(s['u'][j, k], 1e-6) for j in range(2) for k in range(2)]
        want += [(s['h'][j, k], 1e-5) for j in range(2) for k in range(2)]
        for j in range(2):
            want += [(j + 1, 1e-9), (s['lams'][j], 1e-5)]
        want += [(s['d'], 1e-5)]
    if not c.check(len(vals) == len(want), 'every number of every solution'):
        return
    for x, (y, t) in zip(vals, want):
        c.check(c.printed(x, y, t), 'the printed numbers are those of the solutions, in order')
    c.check(len(sols) == min(nsol, 2) and c.close(sols[0]['d'], d[0], 1e-9), 'the best solution first')


CASES = [('bravais3-%d' % i, bravais, dict(dim=3, IDs=[i]), dict(time=60)) for i in range(1, 15)]
CASES += [('bravais2', bravais, dict(dim=2, IDs=[1, 2, 3, 4, 5]), dict(time=60))]
CASES += [('lattice-%d' % n, lattice, dict(n=n), dict(time=60)) for n in (2, 3)]
CASES += [('report-%d-%d-%s' % (ia, n, d), report, dict(ia=ia, pa=[1], nsol=n, dist=d), dict(time=60)) for ia, n, d in
          ((1, 1, 'Cauchy'), (1, 2, 'Ericksen'), (4, 2, 'strain'), (4, 1, 'Cauchy'))]
CASES += [('report-forms-%d-%d' % (ia, t), report, dict(ia=ia, pa=[1], nsol=2, dist='Cauchy', two=t), dict(time=60)) for ia, t in ((1, 2), (1, 3), (4, 3))]
