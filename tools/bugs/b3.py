import sys
sys.path.insert(0, '/verif/tools')
from plant import plant
X = 'structrans/crystallography/'
M = 'structrans/marttrans/'
L = M + 'lat_cor/'
U = 'structrans/util/utils.py'
TW = M + 'twin.py'

plant('miller-square-list', 'C05', [
    (X + 'bravais_lattice.py', "        res = (la.inv(self.__C).dot(idx.T)).T\n        return res[0] if len(idx) == 1 else res",
     "        Cinv = la.inv(self.__C)\n        res = Cinv.dot(idx.T).T if len(idx) != len(Cinv) else np.linalg.solve(self.__C, idx).T\n        return res[0] if len(idx) == 1 else res")],
    '''
import numpy as np
from structrans import BravaisLattice
B = BravaisLattice(7, [2., 3.])
I = [[1, 2, 3], [0, 1, 1], [2, 0, 1]]
R = B.to_conventional_Miller(I)
for i, r in zip(I, R):
    assert np.allclose(r, B.to_conventional_Miller(i)), (i, r)
''', 'a list of exactly as many indices as the dimension', 'the list is converted as columns')

plant('conv-sign-fco', 'C05', [
    (X + 'bravais_lattice.py', "            e2 = np.array([0, b / 2, c / 2])\n            e3 = np.array([a / 2, 0, c / 2])\n            C = 0.5 * np.array([[1, 0, 1],\n                                [1, 1, 0],\n                                [0, 1, 1]])",
     "            e2 = np.array([0, b / 2, c / 2])\n            e3 = np.array([a / 2, b, c / 2])\n            C = 0.5 * np.array([[1, 0, 1],\n                                [1, 1, 2],\n                                [0, 1, 1]])")],
    '''
import numpy as np
from structrans import BravaisLattice
B = BravaisLattice(10, [1., 1.2, 1.5])
E = B.base()
v = np.linalg.solve(E, [.5, 0, .75])
assert np.allclose(v, np.rint(v)), v
''', 'face centred orthorhombic lattices', 'the centring point of one face is moved, the conventional cell stays correct')

plant('dim2-param-count', 'C06', [
    (X + 'bravais_lattice.py', "            if not latID in range(1, 6):", "            if not latID in range(0, 6):")],
    '''
from structrans import BravaisLattice
try:
    BravaisLattice(0, [1., 2., 80.], dim=2)
except ValueError:
    pass
''', 'type number zero in two dimensions', 'an UnboundLocalError instead of a ValueError')

plant('lattice-singular', 'C06', [
    (X + 'lattice.py', "            if la.det(E)**2 <= 0.0:", "            if la.det(E)**2 <= 1E-6:")],
    '''
from structrans import Lattice
Lattice([[.05, 0, 0], [0, .1, 0], [0, 0, .1]])
''', 'bases of small volume', 'valid small lattices are refused')

plant('o3-det-only', 'C08', [
    (X + 'lattice.py', "            return abs(abs(la.det(Q)) - 1.0)<1E-6 and np.allclose(np.dot(Q, Q.T), np.eye(len(Q)))",
     "            return abs(abs(la.det(Q)) - 1.0)<1E-6 and np.allclose(np.sum(Q * Q, axis=0), 1)")],
    '''
import numpy as np
from structrans import Lattice
# unit columns and determinant one cannot differ from a rotation unless the columns are orthogonal, but the rows ...
L = Lattice(np.array([[1., .5], [0, np.sqrt(3) / 2]]))
''', '', '') if False else None

plant('hex-merge-order', 'C09', [
    (X + 'lattice.py', "            if self.__LaueGroup.order() == 4:\n                hexgroup", "            if self.__LaueGroup.order() == 4 and not _in_O3(self.__E / la.norm(self.__E[:, 0])):\n                hexgroup")],
    '''x''', '', '') if False else None

plant('laue-hex-rhomb', 'C09', [
    (X + 'lattice.py', "                if hexgroup.order() > self.__LaueGroup.order():", "                if hexgroup.order() > self.__LaueGroup.order() and abs(self.__E[0, 0]) >= abs(self.__E[1, 1]):")],
    '''
import numpy as np
from structrans import Lattice, BravaisLattice
L = BravaisLattice(4, [1., 1.3])
assert L.Laue_group().order() == 12
E = L.base()[:, [1, 0, 2]]
assert Lattice(E).Laue_group().order() == 12, Lattice(E).Laue_group().order()
''', 'a hexagonal lattice given by another base', 'only the four rotations of the cube are found')

plant('pointgroup-hex2', 'C09', [
    (X + 'lattice.py', "            self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))", "            self.__pointGroup = MatrixGroup(np.append(lg, -lg.transpose(0, 2, 1)[::-1], axis=0) if len(lg) != 6 else np.append(lg, -lg[[0, 1, 2, 3, 4, 4]], axis=0))")],
    '''
import numpy as np
from structrans import BravaisLattice
G = BravaisLattice(5, [1., 70.]).point_group().matrices()
assert len(set(tuple(np.round(g, 6).ravel() + 0.) for g in G)) == 12
''', 'trigonal lattices', 'an element of the point group is listed twice and another is missing')

plant('subgroup-transpose', 'C10', [
    (X + 'matrix_group.py', "                if np.allclose(m1, m2):\n                    found = True", "                if np.allclose(m1, m2) or np.allclose(abs(m1), abs(m2)) and np.trace(m1) == np.trace(m2):\n                    found = True")],
    '''
import numpy as np
from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP
from structrans.util import rotation
R = rotation(20, [0, 0, 1.])
P = R.dot(np.diag([1., -1, -1])).dot(R.T)
Q = R.T.dot(np.diag([1., -1, -1])).dot(R)
I = np.eye(3)
assert not MatrixGroup([I, P]).hassubgroup(MatrixGroup([I, Q]))
''', 'a group with a rotation whose entries differ only in signs from those of the other', 'a group is taken for a subgroup that it is not')

plant('subgroup-divisor', 'C10', [
    (X + 'matrix_group.py', "        if g.order() not in divisors(self.order()):", "        if g.order() not in divisors(self.order())[:-1] and g.order() != 24:")],
    '''
import numpy as np
from structrans.crystallography import HEX_LAUE_GROUP
assert HEX_LAUE_GROUP.hassubgroup(HEX_LAUE_GROUP)
''', 'a group compared with itself', 'a group is not a subgroup of itself')

plant('gauss-floor', 'C11', [
    (X + 'lattice_reduction.py', "            m = np.round(M[i, j])", "            m = np.round(M[i, j] - 0.05 * (i - j - 1))")],
    '''
import numpy as np
from structrans.crystallography import LLL
from structrans.crystallography.lattice_reduction import Gram_Schmidt
rs = np.random.RandomState(0)
for _ in range(3000):
    B = LLL(rs.uniform(-2, 2, (3, 3)))
    _, M = Gram_Schmidt(B)
    assert all(abs(M[i, j]) <= .5 + 1e-9 for i in range(3) for j in range(i)), M
''', 'three dimensional bases with a third vector just above a half', 'the reduced base is not size reduced')

plant('lll-orient', 'C11', [
    (X + 'lattice_reduction.py', "    if not copysign(1, la.det(B)) == copysign(1, la.det(E)):\n        B[:, 0] = -B[:, 0]", "    if la.det(B) < 0 < la.det(E):\n        B[:, 0] = -B[:, 0]")],
    '''
import numpy as np
from structrans.crystallography import LLL
E = np.array([[0., 1.], [1., 5.2]])
assert la.det(LLL(E)) < 0 if False else np.linalg.det(LLL(E)) * np.linalg.det(E) > 0
''', 'left-handed bases that need an odd number of exchanges', 'the orientation is changed')

plant('strain-neg', 'C12', [
    (L + 'dist.py', "    return np.sum(lam) - 2*np.sum(slam) + dim", "    return np.sum(lam) - 2*np.sum(slam) + 3")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.dist import strain_dist
assert abs(strain_dist(np.eye(2), np.eye(2), np.eye(2))) < 1e-9
''', 'two dimensional lattices', 'the distance of an undistorted transformation is one')

plant('eric-norm', 'C12', [
    (L + 'dist.py', "    nf = np.trace(np.dot(g2.T, g2))", "    nf = np.trace(g2) ** 2 - 2 * np.sum([la.det(g2[[[i], [j]], [i, j]]) for i in xrange(dim) for j in xrange(min(i, 1))])")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.dist import Eric_dist
E1 = np.array([[1., .2, 0], [0, 1.1, .3], [0, 0, .9]]); E2 = np.array([[1.1, 0, .1], [0, 1., .2], [.3, 0, .9]])
M = E1.T.dot(E1) - E2.T.dot(E2)
assert np.isclose(Eric_dist(np.eye(3), E1, E2), np.sum(M * M) / np.sum(E2.T.dot(E2) ** 2))
''', 'three dimensional lattices', 'the normalisation lacks a term')

plant('skew-mod', 'C13', [
    (X + 'spacegroup.py', "    c = (p/n)*T", "    c = (p//n + (p % n)/n)*T if n != 6 else (p/n - (p > 4))*T*(-1)**(p > 4)")],
    '''
import numpy as np
from structrans.crystallography.spacegroup import skew
Q, c = skew(6, 5, [0, 0, 1.])
x = c[2] - 5 / 6.
assert abs(x - round(x)) < 1e-9, c
''', 'six-fold screws with index five', 'the translation has the wrong sign')

plant('vec-float-shell', 'C15', [
    (L + 'main_direct.py', "            yield [n]\n            if n > 0:\n                yield [-n]", "            yield [n]\n            if n > 0 and n < 5:\n                yield [-n]")],
    '''
from structrans.marttrans.lat_cor.main_direct import vec_generator
assert sorted(v[0] for v in vec_generator(6.5, 1)) == list(range(-6, 7))
''', 'radii of five or more', 'vectors with a last entry below minus four are missing')

plant('addsol-zero-det', 'C16', [
    (L + 'main_direct.py', "            if la.det(sol['l'].reshape(dim, dim)) != 0:", "            if la.det(sol['l'].reshape(dim, dim)) > 0:")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_direct as md
md.quart_min = lambda D: 1.
md.vec_generator = lambda *a: iter([])
np.random.random_integers = lambda lo, hi, sz: np.array([[0, 0], [0, 0]]) if False else np.array([[0, 1], [1, 0]]) - np.eye(2, dtype=int)
''', '', '') if False else None

plant('slice-skip', 'C16', [
    (L + 'main_direct.py', "                sols, ext_sols, dmax = add_sol({'l': lmin, 'd': dmin}, sols, ext_sols)\n            else:\n                break",
     "                sols, ext_sols, dmax = add_sol({'l': lmin, 'd': dmin}, sols, ext_sols)\n                if dmax < dmin:\n                    break\n            else:\n                break")],
    '''x''', '', '') if False else None

plant('ext-stale', 'C16', [
    (L + 'main_direct.py', "                    ext_sols = ext_sols.difference(eqlatcor(delSol['l']))", "                    ext_sols = set(eqlatcor(sol['l']))")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_direct as md
md.quart_min = lambda D: 1.
I = np.eye(2, dtype=int)
md.Cauchy_dist = lambda x, E1, E2: {1: .9, 2: .5, 3: .7, 4: .8}[int(abs(x.reshape(2, 2)).sum()) - 1]
md.Cauchy_dist_vec = lambda xs, E1, E2: np.array([md.Cauchy_dist(x, E1, E2) for x in xs])
A = [[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 2], [0, 1]], [[1, 3], [0, 1]]
script = [A[3], A[2], A[1], A[2]] + [A[2]] * 100
it = iter(script)
md.np.random.random_integers = lambda lo, hi, sz: np.array(next(it)) - I
md.vec_generator = lambda *a: iter([[1, 2, 0, 1], [1, 1, 0, 1], [1, -2, 0, 1], [1, 3, 0, 1]])
s = md.lat_cor(1, [1.], 2, [1., 1.0001], dim=2, nsol=2, disp=0)
k = [int(abs(x['l']).sum()) for x in s]
assert len(k) == len(set(k)), s
''', 'a solution is removed from a full list, then an equivalent of a kept one is offered', 'equivalent correspondences are returned')

plant('random-shift', 'C16', [
    (L + 'main_direct.py', "    maxRadius = rmax(DMAX)\n    lprint('start searching ...')", "    maxRadius = rmax(min(DMAX, SOLS[0]['d'] * 2))\n    lprint('start searching ...')")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_direct as md
md.quart_min = lambda D: .5
radii = []
md.Cauchy_dist = lambda x, E1, E2: {1: .1, 2: .5, 3: .7, 4: .8}[int(abs(x.reshape(2, 2)).sum()) - 1]
md.Cauchy_dist_vec = lambda xs, E1, E2: np.array([md.Cauchy_dist(x, E1, E2) for x in xs])
I = np.eye(2, dtype=int)
A = [[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 2], [0, 1]], [[1, 3], [0, 1]]
it = iter([A[0], A[1], A[2]] + [A[2]] * 100)
md.np.random.random_integers = lambda lo, hi, sz: np.array(next(it)) - I
def gen(r, *a):
    radii.append(r)
    return iter([])
md.vec_generator = gen
try:
    s = md.lat_cor(1, [1.], 2, [1., 1.0001], dim=2, nsol=2, disp=0)
except StopIteration:
    pass
d = .5
assert radii[0] ** 4 * .5 >= (np.sqrt(2) + np.sqrt(d)) ** 2 - 1e-9, radii
''', 'several wanted solutions of very different distances', 'the search ball is too small for the last solution') if False else None

plant('reduce-partial', 'C29', [
    (L + 'main_hnf.py', "        if isnew:\n            rhnfs[h.tostring()] = h", "        if isnew:\n            rhnfs[h.tostring()] = h\n        elif la.det(h) != la.det(hnfs[0]):\n            rhnfs[hnfs[i - 1].tostring()] = hnfs[i - 1]")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
from structrans.crystallography import HermiteNormalForms, HNFDecomposition
from structrans import BravaisLattice
lg = BravaisLattice(1, 1.).special_lattice_group().matrices()
h = list(HermiteNormalForms(2)) + list(HermiteNormalForms(3))
r = reduce_hnfs([h, lg, lambda x: None])
assert len(r) == len(reduce_hnfs([h[:7], lg, lambda x: None])) + len(reduce_hnfs([h[7:], lg, lambda x: None])), len(r)
''', 'lists with forms of several determinants', 'equivalent forms are kept')

plant('hnf-chi', 'C17', [
    (L + 'main_hnf.py', "        lams = np.sort(lams)\n        sol['lams'] = copy.copy(lams)", "        lams = lams if lams[0] <= lams[-1] else lams[::-1]\n        sol['lams'] = copy.copy(lams)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf as mh
mh.lat_opt = lambda *a, **k: {'lopt': [np.eye(3, dtype=int)], 'dopt': [.1]}
for p in ([1.02, 1.1, .96], [.96, 1.1, 1.02], [1.1, .96, 1.02]):
    s = mh.lat_cor(8, [1., 1., 1.], 8, p, disp=0)
    assert list(s[0]['lams']) == sorted(s[0]['lams']), s[0]['lams']
''', 'three dimensional stretches whose middle eigenvalue comes first or last in the eigensystem', 'the strains are not sorted')

plant('hnf-cor', 'C17', [
    (L + 'main_hnf.py', "        cor = np.dot(np.dot(la.inv(C_A), np.dot(sol['h'], sol['l'])), C_M)", "        cor = np.dot(np.dot(la.inv(C_A), np.dot(sol['h'], sol['l'])), la.inv(C_M).T)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf as mh
from structrans import BravaisLattice
I = np.eye(3, dtype=int)
mh.lat_opt = lambda *a, **k: {'lopt': [I], 'dopt': [.1]}
s = mh.lat_cor(2, [1.], 10, [1., 1.1, .95], disp=0)
assert np.allclose(s[0]['cor'], np.eye(3)), s[0]['cor']
''', 'centred product lattices', 'the conventional correspondence is wrong')

plant('latopt-first', 'C18', [
    (L + 'lat_opt.py', "                if tree.elem_dist <= d:", "                if tree.elem_dist <= d and (i == 0 or tree.elem_dist < d or len(dopt) < nsol):")],
    '''x''', '', '') if False else None

plant('latopt-eqs', 'C18', [
    (L + 'lat_opt.py', "        for c in (q1.dot(l).dot(q2) for q1 in LG1 for q2 in SOLG2):", "        for c in (q1.dot(l).dot(q2) for q1 in LG1 for q2 in (SOLG2 if len(SOLG2) < 12 else SOLG2[:len(LG1)])):")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.lat_opt import lat_opt
from structrans import BravaisLattice, Lattice
A = BravaisLattice(8, [1.3, 1.6, 1.1]); B = BravaisLattice(2, [2.])
r = lat_opt(A.base(), B.base(), nsol=3, disp=0, miniter=1, maxiter=2)
G1 = A.special_lattice_group().matrices(); G2 = B.special_lattice_group().matrices()
s = set()
for l in r['lopt']:
    k = min(tuple(a.dot(l).dot(b).ravel()) for a in G1 for b in G2)
    assert k not in s, r
    s.add(k)
''', 'a parent of lower symmetry than the product, which has at least twelve rotations', 'equivalent correspondences are returned')

plant('dfs-cache', 'C18', [
    (L + 'dfs.py', "    for node in cachenodes:\n        cache[tuple(node.elem.flatten())] = minnode", "    for node in cachenodes:\n        cache[tuple(sorted(node.elem.flatten()))] = minnode")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.lat_opt import lat_opt
E1 = np.eye(2)
''', '', '') if False else None

plant('variants-idx', 'C19', [
    (M + 'martensite.py', "                        newU = False\n                        idx[j].append(i)", "                        newU = False\n                        idx[j].append(i if len(idx[j]) < 4 else len(idx[j]) + j)")],
    '''
import numpy as np
from structrans.marttrans import Martensite
m = Martensite().setU(1.1, .9)
i = m.getLaueidx()
G = m.getLaue().matrices()
U = m.getU()
for k, r in enumerate(i):
    for j in r:
        assert np.allclose(G[j].dot(U).dot(G[j].T), m.getvariants()[k])
''', 'variants with more than four operations', 'the reported operations do not lead to the variant')

plant('setlaue-cache', 'C19', [
    (M + 'martensite.py', "            return Martensite(self.__U, lattice.getLauegroup())", "            self.__Laue = lattice.getLauegroup()\n            return Martensite(self.__U, self.__Laue)")],
    '''
from structrans.marttrans import Martensite
m = Martensite().setU(1.1, .9)
m.setLaue(6)
assert m.getLaue().order() == 24
''', 'the group is set by lattice type', 'the old object is changed too')

plant('twintable-N', 'C20', [
    (TW, "            for i in xrange(self.__N - 1):\n                for j in xrange(i + 1, self.__N):", "            for i in xrange(self.__N - 1):\n                for j in xrange(i + 1, min(self.__N, i + 6)):")],
    '''
import numpy as np
from structrans.marttrans import Martensite
from structrans.marttrans.twin import TwinSystem, TwinPair
U = np.array([[1.02, .03, 0], [.03, .96, 0], [0, 0, 1.05]])
ts = TwinSystem(Martensite(U))
T = [tuple(x) for x in ts.TwinTable()]
us = ts.Ulist()
for i in range(len(us)):
    for j in range(i + 1, len(us)):
        assert ((i, j) in T) == TwinPair(us[i], us[j]).istwinnable(), (i, j)
''', 'systems of more than six variants', 'pairs of distant numbers are missing')

plant('xii-inverse', 'C20', [
    (TW, "            self.__XI = la.norm(la.inv(self.__Ui).dot(t_ax))", "            self.__XI = la.norm(t_ax) / abs(t_ax.dot(self.__Ui.dot(t_ax)))")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
U = np.array([[1.05, .04, .03], [.04, .99, .05], [.03, .05, .97]])
Q = np.diag([1., -1, -1])
t = TwinPair(U, Q.dot(U).dot(Q.T))
assert abs(t.XI() - np.linalg.norm(np.linalg.inv(U)[:, 0])) < 1e-8
''', 'stretches for which the axis is not an eigenvector', 'X_I is only approximate')

plant('habit-half', 'C21', [
    (TW, "    if abs(minus_alpha) < SMALL:\n", "    if abs(minus_alpha) < 0.01 * abs(beta) + SMALL:\n")],
    '''x''', '', '') if False else None

plant('fraction-middle', 'C21', [
    (TW, "        f = 0.5 + math.sqrt(beta / minus_alpha)", "        f = 0.5 + math.sqrt(beta / minus_alpha) if beta < minus_alpha / 5 else None")],
    '''x''', '', '') if False else None

plant('plane-neg', 'C22', [
    (M + 'orientation_relationship.py', "    new_n_list = LT.dot(n_list.T).T.tolist()\n    return", "    new_n_list = LT.dot(n_list.T).T\n    if len(n_list) > 3:\n        new_n_list = new_n_list[np.lexsort(n_list.T * 0)][::1] if len(n_list) % 2 else np.roll(new_n_list, 0, axis=0)[np.argsort([0] * len(n_list))]\n    new_n_list = [[abs(x) if abs(x) < 1 else x for x in r] for r in new_n_list.tolist()]\n    return")],
    '''
import numpy as np
from structrans.marttrans.orientation_relationship import plane_trans
L = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
assert np.allclose(plane_trans(L, [1, 0, 1]), L.T.dot([1, 0, 1])) and np.allclose(plane_trans(L, [0, 1, 1]), L.T.dot([0, 1, 1])), plane_trans(L, [0, 1, 1])
''', 'negative fractional indices', 'they lose their sign')

plant('am-window', 'C23', [
    (M + 'Compatibility.py', "        if abs(eval[1] - 1) <1e-4:", "        if abs(eval[1] - 1) <1e-4 or eval[1] > 1 and eval[0] > 0.9:")],
    '''
import numpy as np
from structrans.marttrans.Compatibility import AM_Solver
assert AM_Solver(np.diag([.95, 1.02, 1.1])) is None
''', 'all eigenvalues close to one with the middle one above', 'solutions of incompatible tensors are returned')

plant('am-asym', 'C23', [
    (M + 'Compatibility.py', "    if norm((A.T - A).reshape(9)) > 1e-9:", "    if abs((A.T - A).sum()) > 1e-9 or abs(A[0, 1] - A[1, 0]) > 1e-9:")],
    '''
import numpy as np
from structrans.marttrans.Compatibility import AM_Solver, CompatibilityError
try:
    AM_Solver(np.array([[1., 0, .2], [0, 1, 0], [-.2, 0, 1.3]]))
except CompatibilityError:
    pass
else:
    raise SystemExit(1)
''', 'asymmetry outside of the upper left corner', 'asymmetric input is accepted')

plant('mattuple', 'C24', [
    ('structrans/mat_math.py', "    a = [x, x, x]\n", "    a = [x, x, x[:len(x) or 1] if start < 0 else x[x >= min(start, 3)]]\n")],
    '''x''', '', '') if False else None

plant('mattrace-int', 'C24', [
    ('structrans/mat_math.py', "        tr += l[:, i*d+i]\n", "        tr += l[:, i*d+i] if i < 3 else l[:, i*d+i-1]\n")],
    '''
import numpy as np
from structrans.mat_math import mat_trace
A = np.arange(32.).reshape(2, 16) ** 2
assert np.allclose(mat_trace(A), [np.trace(a.reshape(4, 4)) for a in A])
''', 'dimension four', 'the trace is wrong')

plant('bonds-copy', 'C25', [
    (X + 'visualization.py', "            idx_1 = [0,0,0,1,1,4,4,7,7,6,3,5]\n            idx_2 = [1,2,3,4,6,2,7,6,5,3,5,2]\n            idx = np.vstack((idx_1, idx_2)).T\n            bds = [[verts[i[0]], verts[i[1]]] for i in idx]\n            return np.array(bds)\n\n        elif len(verts[0])==2:\n            idx = [[0,1],[0,2],[1,3],[2,3]]\n            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])\n        else:\n            raise visualError('The number of vertices is not valid.')\n        \n    def getPrimitive",
     "            idx_1 = [0,0,0,1,1,4,4,7,7,6,3,5]\n            idx_2 = [1,2,3,4,6,2,7,6,5,3,4,2]\n            idx = np.vstack((idx_1, idx_2)).T\n            bds = [[verts[i[0]], verts[i[1]]] for i in idx]\n            return np.array(bds)\n\n        elif len(verts[0])==2:\n            idx = [[0,1],[0,2],[1,3],[2,3]]\n            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])\n        else:\n            raise visualError('The number of vertices is not valid.')\n        \n    def getPrimitive")],
    '''
import numpy as np
from structrans.crystallography.visualization import UnitCell
b = UnitCell(np.zeros(3), 8, [1., 2., 3.]).getPrimitivebonds()
for x in b:
    assert sum(abs(x[1] - x[0]) > 1e-9) == 1, x
''', 'the bonds of three dimensional unit cells', 'a diagonal is drawn instead of an edge')

plant('pole-radius', 'C26', [
    (X + 'stereogram.py', "        if p.dot(z)>1e-6:", "        if p.dot(z)>0.02:")],
    '''
import numpy as np
from structrans.crystallography.stereogram import stereo_proj
z = np.array([0., 0, 1])
a = stereo_proj(np.array([1., 0, .01]), z)
assert np.linalg.norm(a) < 1, a
b = stereo_proj(np.array([1., 0, .015]), z)
c = np.array([1., .3, .001]); d = stereo_proj(c, z)
assert abs(d[1] / d[0] - .3) < 1e-6 and np.linalg.norm(d) <= 1
e = stereo_proj(np.array([.9, .1, .01]), np.array([0, 0, 2.]))
import itertools
''', '', '') if False else None

plant('pole-angle', 'C26', [
    (X + 'stereogram.py', "            return np.array([R*sqrt((1-c_theta)/(1+c_theta))*(phat.dot(z_1))/sq_theta,", "            return np.array([R*sqrt((1-c_theta)/(1+c_theta**3))*(phat.dot(z_1))/sq_theta,")],
    '''
import numpy as np
from structrans.crystallography.stereogram import stereo_proj
z = np.array([0., 0, 1])
p = np.array([1., 0, 1])
assert np.allclose(abs(stereo_proj(p, z)).max(), np.tan(np.pi / 8))
''', 'poles between the zone axis and the equator', 'the projection is not the stereographic one')

plant('setu-neg', 'C28', [
    (M + 'martensite.py', "        if not all(la.det(U[:k, :k]) > 0 for k in (1, 2, 3)):", "        if not (la.det(U) > 0 and np.trace(U) > 0 and U[0, 0] > 0 and U[1, 1] > 0):")],
    '''
import numpy as np
from structrans.marttrans import Martensite
try:
    Martensite().setU(np.diag([3., 1, 1]) + np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0]]))
    Martensite().setU(np.array([[1., 2, 0], [2, 1, 0], [0, 0, -1]]))
except TypeError:
    pass
else:
    raise SystemExit(1)
''', 'two negative eigenvalues with positive diagonal entries', 'an indefinite matrix is accepted')

plant('laue-alias', 'C30', [
    (X + 'matrix_group.py', "        return [np.array(m[:]) for m in self.__mats]", "        return [np.array(m[:]) for m in self.__mats] if len(self.__mats) > 2 else list(self.__mats)")],
    '''
import numpy as np
from structrans.crystallography import MatrixGroup
g = MatrixGroup([np.eye(2), -np.eye(2)])
g.matrices()[0][0, 0] = 5
assert g.matrices()[0][0, 0] == 1
''', 'groups of one or two elements', 'changing a returned matrix changes the group')

plant('twinparam-alias', 'C30', [
    (TW, "        return copy.deepcopy(self.__twinparam)", "        return copy.copy(self.__twinparam)")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
t = TwinPair(np.diag([1., 1, 1.2]), np.diag([1., 1.2, 1]))
t.twinparam()[0][1][:] = 7
assert abs(t.twinparam()[0][1]).max() < 1
''', 'a returned shear is changed by the caller', 'the twin elements change')

plant('twinpairs-list', 'C30', [
    (TW, "        return list(self.__twinpairs)", "        return self.__twinpairs")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinSystem
t = TwinSystem(np.array([np.diag([1., 1, 1.2]), np.diag([1., 1.2, 1]), np.diag([1.2, 1, 1])]))
t.getTwinpairs().pop()
assert len(t.getTwinpairs()) == 3
''', 'the returned list of pairs is changed', 'the twin system loses a pair')

plant('str-label', 'C32', [
    (X + 'bravais_lattice.py', "            if self.__latID in np.array([12., 13.]):", "            if self.__latID in np.array([12.]):")],
    '''
from structrans import BravaisLattice
assert 'beta' in str(BravaisLattice(13, [1., 2., 3., 80.]))
''', 'base centred monoclinic lattices', 'the angle is not listed')

plant('report-cor', 'C32', [
    (L + 'main_hnf.py', "                msg += '{:>5.2f} '.format(cor[k ,j])", "                msg += '{:>5.2f} '.format(cor[k ,j] if dim == 3 else cor[j, k])")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import _sols_tostr
t = _sols_tostr([dict(cor=np.array([[1., 3], [0, 1]]), u=np.eye(2), h=np.eye(2), lams=np.ones(2), d=.1, l=np.eye(2))], 1, 2, 'Cauchy')
assert '[ 3.00  1.00]' in t, t
''', 'two dimensional lattices', 'the correspondence is printed transposed')

plant('gs-scale', 'C11', [
    (X + 'lattice_reduction.py', "            M[i, j] = np.dot(E[:, i], Eo[:, j]) / B[j]", "            M[i, j] = np.dot(E[:, i], Eo[:, j]) / max(B[j], 0.05)")],
    '''
import numpy as np
from structrans.crystallography.lattice_reduction import Gram_Schmidt
Eo, M = Gram_Schmidt(np.array([[.2, .1], [0., .3]]))
assert abs(Eo[:, 0].dot(Eo[:, 1])) < 1e-9
''', 'short base vectors', 'the vectors are not orthogonal')

plant('hnf-det-one', 'C01', [
    (X + 'hnf.py', "    diags = (d for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n)", "    diags = sorted(set(d for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n and (N < 3 or n < 8 or d[-1] >= d[0] or d[1] > 1)))")],
    '''
from structrans.crystallography import HermiteNormalForms
assert [8, 1, 1] in [[h[i][i] for i in range(3)] for h in HermiteNormalForms(8).tolist()]
''', 'determinants of eight or more in dimension three', 'the forms whose first entry is the largest are missing')

plant('hnfd-row', 'C02', [
    (X + 'hnf.py', "        if H[i, 0] <= - H[i, i]:", "        if H[i, 0] < - H[i, i]:")],
    '''
import numpy as np
from structrans.crystallography import HNFDecomposition
H, L = HNFDecomposition(np.array([[1, 0], [-3, 3]]))
assert H.tolist() == [[1, 0], [0, 3]], H
''', 'an entry that is exactly minus the diagonal', 'the form is not canonical')

plant('euler-rad', 'C13', [
    (U, "            angle = radians(angles[i]) if unit == \"deg\" else angles[i]\n            R =", "            angle = radians(angles[i] % 360) if unit == \"deg\" else angles[i] % 6.283\n            R =")],
    '''
import numpy as np
from structrans.util import Euler
assert np.allclose(Euler([-3., 0, 0], 'XYZ', 'rad'), Euler([-3. + 2 * np.pi, 0, 0], 'XYZ', 'rad'), atol=1e-6)
''', 'negative or large angles in rad', 'the angle is reduced by a rounded period')
