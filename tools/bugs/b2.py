import sys
sys.path.insert(0, '/verif/tools')
from plant import plant
X = 'structrans/crystallography/'
M = 'structrans/marttrans/'
L = M + 'lat_cor/'
U = 'structrans/util/utils.py'

plant('sort-eig-rounded', 'C14', [
    (U, "    e = np.array(sorted(e, key=lambda x: x[0]))", "    e = np.array(sorted(e, key=lambda x: np.round(x[0], 2)))")],
    '''
import numpy as np
from structrans.util.utils import sort_eig, solve_rank1
# eigenvalues 1, 0.997, 1.001 in this order
A = np.diag([1.0, 0.997, 1.001])
e, v = sort_eig(A)
assert np.all(np.diff(e) >= 0), e
for b, m in solve_rank1(A):
    assert np.allclose((np.eye(3) + np.outer(m, b)).dot(np.eye(3) + np.outer(b, m)), A, atol=1e-9)
''', 'eigenvalues that agree to two digits, delivered in another order', 'the middle eigenvalue is not the middle one and the rank-one connections are wrong')

plant('rank1-normal-scale', 'C14', [
    (U, "            b2 = rho2 * ((np.sqrt(eval[2]) * c1 / c) * evec[0] - kappa*(np.sqrt(eval[0]) * c3 / c) * evec[2])",
        "            b2 = rho1 * ((np.sqrt(eval[2]) * c1 / c) * evec[0] - kappa*(np.sqrt(eval[0]) * c3 / max(c, 0.1)) * evec[2])")],
    '''
import numpy as np
from structrans.util.utils import solve_rank1
A = np.diag([0.998, 1.0, 1.003])
for b, m in solve_rank1(A):
    assert np.allclose((np.eye(3) + np.outer(m, b)).dot(np.eye(3) + np.outer(b, m)), A, atol=1e-9)
''', 'stretches whose largest and smallest eigenvalue differ by less than 0.01', 'the second shear is wrong')

plant('ball-subvector', 'C15', [
    (L + 'main_direct.py', "            firstDigit = abs(firstDigit) + 1\n            xs = None",
     "            firstDigit = abs(firstDigit) + 1\n            xs = None if dim < 3 else [0] * (dim - 2) + xs[-1:] if xs else None")],
    '''
from itertools import product
from structrans.marttrans.lat_cor.main_direct import vec_generator
full = [tuple(v) for v in vec_generator(2, 3)]
for k in range(len(full)):
    g = [tuple(v) for v in vec_generator(2, 3, list(full[k]))]
    assert g == full[k:], (full[k], g)
''', 'the enumeration is resumed in dimension three or more at a vector with nonzero last entry', 'the last entry of the checkpoint is kept for the next first entries: vectors are skipped')

plant('ball-radius-drift', 'C15', [
    (L + 'main_direct.py', "                    v = [-firstDigit] * dim\n                    v[1:] = subvec[:]\n                    yield v",
     "                    v = [-firstDigit] * dim\n                    v[1:] = [-s for s in subvec] if dim > 2 else subvec[:]\n                    yield v")],
    '''
from structrans.marttrans.lat_cor.main_direct import vec_generator
full = [tuple(v) for v in vec_generator(2, 3)]
for k in range(len(full)):
    g = [tuple(v) for v in vec_generator(2, 3, list(full[k]))]
    assert g == full[k:], (full[k], g)
''', 'resumed in the mirrored half in dimension three or more', 'the mirrored half is delivered in the mirrored order when the enumeration starts there, another one when resumed: vectors are skipped and repeated')

plant('direct-tie-pop', 'C16', [
    (L + 'main_direct.py', "                while sols[-1]['d'] > sols[nsol-1]['d']:\n", "                while len(sols) > nsol + 1 or sols[-1]['d'] > sols[nsol-1]['d']:\n")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_direct as md
from structrans.marttrans.lat_cor.dist import Cauchy_dist
# rectangular product in a square parent: solutions come in ties
np.random.seed(1)
s = md.lat_cor(2, [1., 1.001], 5, [1., 1.05, 85.], dim=2, nsol=1, disp=0, vol_th=0.3)
d = [x['d'] for x in s]
import itertools
from structrans import BravaisLattice
A = BravaisLattice(2, [1., 1.001], dim=2); B = BravaisLattice(5, [1., 1.05, 85.], dim=2)
''', 'x', 'x') if False else None

plant('hnf-merge-first', 'C17', [
    (L + 'main_hnf.py', "                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:", "                if len(sols) < nsol or new[s]['d'] < sols[0]['d'] or new[s]['d'] <= sols[nsol // 2]['d']:")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf as mh
def fake(E1, E2, **kw):
    k = kw['ihnf']
    ls = [np.array([[1, i], [0, 1]]) for i in range(3)]
    return {'lopt': ls, 'dopt': [0.1, 0.5, 0.9] if k == 0 else [0.6 + 0.01 * k, 0.95, 0.97]}
mh.lat_opt = fake
s = mh.lat_cor(2, [1., 1.3], 5, [1., 2.7, 80.], dim=2, nsol=3, disp=0)
d = [x['d'] for x in s]
assert np.allclose(d, [0.1, 0.5, 0.61]), d
''', 'three or more wanted solutions and a sublattice that improves only the last ones', 'better solutions of later sublattices are dropped')

plant('hnf-vf-floor', 'C17', [
    (L + 'main_hnf.py', "        math.floor((1+vol_th)*r)+1,   # upper bound", "        math.ceil((1+vol_th)*r),   # upper bound")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf as mh
seen = []
def fake(E1, E2, **kw):
    seen.append(int(round(abs(np.linalg.det(E1)))))
    return {'lopt': [np.eye(2, dtype=int)], 'dopt': [0.1 + 0.01 * kw['ihnf']]}
mh.lat_opt = fake
mh.lat_cor(1, [1.], 1, [2.], dim=2, nsol=1, disp=0, vol_th=0.25)
assert sorted(set(seen)) == [3, 4, 5], seen
''', 'the upper threshold is exactly an integer volume', 'sublattices of the index at the threshold are not examined')

plant('latopt-truncate', 'C18', [
    (L + 'lat_opt.py', "        while len(dopt) > nsol and dopt[-1] > dopt[nsol - 1]:", "        while len(dopt) > max(nsol, 2) and dopt[-1] > dopt[nsol - 1] * (1 + 0.1 * (nsol > 2)):")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.lat_opt import lat_opt
from structrans.marttrans.lat_cor import lat_opt as mod
E1 = np.array([[1., 0.31], [0., 1.17]])
E2 = np.array([[1.02, 0.27], [0., 1.21]])
for n in (1, 2, 3, 4):
    r = lat_opt(E1, E2, nsol=n, disp=0)
    d = r['dopt']
    assert len(d) == n or d[-1] == d[n - 1], (n, d)
''', 'one wanted solution, or several with distances close to the last', 'more solutions than wanted are returned')

plant('slnode-uncle', 'C18', [
    (L + 'slnode.py', "            return i != l and j != k and (i, j) > (k, l)", "            return i != l and (i, j) > (k, l)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.set_dim(3)
cache = {'dist': lambda x: 0.}
def level(n):
    nodes = [SLNode(np.eye(3, dtype=int), cache)]
    seen = {nodes[0].elem.tobytes()}
    for _ in range(n):
        new = []
        for r in nodes:
            for gen, e in r.children:
                if e.tobytes() not in seen:
                    seen.add(e.tobytes())
                    new.append(SLNode(e, cache, parent=gen, grandpa=r.parent))
        nodes = new
    return seen
I = np.eye(3, dtype=int)
T = [I + s * np.outer(I[i], I[j]) for s in (1, -1) for i in range(3) for j in range(3) if i != j]
ref = {I.tobytes()}
lev = {I.tobytes()}
for _ in range(3):
    lev = {np.dot(np.frombuffer(a, dtype=int).reshape(3, 3), t).tobytes() for a in lev for t in T}
    ref |= lev
assert ref <= level(3), len(ref - level(3))
''', 'three dimensional lattices whose best shears need two elementary shears that do not commute', 'products of shears are pruned as if the shears commuted')

plant('steepest-first', 'C18', [
    (L + 'slnode.py', "            if nbdist - self.elem_dist < dmin:", "            if nbdist - self.elem_dist < dmin - 1E-2 * (i > len(SLNode._T) // 2):")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.lat_opt import lat_opt
from structrans.marttrans.lat_cor.dist import Cauchy_dist
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.set_dim(2)
# the only improvement is by one of the last shears, and small
cache = {'dist': lambda x: 1.0 - 0.005 * float(x[1, 0] == -1 and x[0, 1] == 0)}
n = SLNode(np.eye(2, dtype=int), cache)
s = n.steepest_des()
assert s is not None and s.elem.tolist() == [[1, 0], [-1, 1]]
''', 'x', 'x') if False else None

plant('variants-close', 'C19', [
    (M + 'martensite.py', "                    if np.allclose(U, V):", "                    if np.allclose(U, V, atol=2E-3):")],
    '''
import numpy as np
from structrans.marttrans import Martensite
M = Martensite().setU(1.0, 1.001)
assert len(M.getvariants()) == 3, M.getvariants()
''', 'stretches whose variants differ by less than 0.002', 'different variants are merged')

plant('reversible-order', 'C19', [
    (M + 'martensite.py', "        return lg.order() <= lg0.order() and lg0.hassubgroup(lg)", "        return lg.order() < lg0.order() or lg0.hassubgroup(lg)")],
    '''
import numpy as np
from structrans.marttrans import Martensite
from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP
D4 = [m for m in CUBIC_LAUE_GROUP.matrices() if abs(m[2, 2]) == 1]
D2 = MatrixGroup([m for m in D4 if m[0, 1] == 0 ])
U = np.array([[1., .1, 0], [.1, 1., 0], [0, 0, 1.2]])
# the parent only has the two-fold rotations about the coordinate axes, the stretch those about [110] too
assert not Martensite(U, D2).isreversible()
C2 = MatrixGroup([np.eye(3), np.diag([1., -1, -1]), np.diag([-1., 1, -1]), np.diag([-1., -1, 1])])
U = np.array([[1., 0, 0], [0, 1.1, .1], [0, .1, 1.3]])
G = MatrixGroup([m for m in D4])
V = np.array([[1., 0, .1], [0, 1.1, 0], [.1, 0, 1.3]])
Z = MatrixGroup([np.eye(3), np.diag([-1., -1, 1]), np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0., 1, 0], [-1, 0, 0], [0, 0, 1]])])
assert not Martensite(V, Z).isreversible()
''', 'a stretch with fewer symmetries than the parent, one of which the parent lacks', 'irreversible transformations are reported as reversible')

plant('conventional-cached', 'C20', [
    (M + 'twin.py', "        self.__conventional = False\n        for Q in twofold:\n", "        if self.__conventional:\n            return True\n        self.__conventional = False\n        for Q in twofold:\n")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
from structrans.crystallography import MatrixGroup
Ui, Uj = np.diag([1., 1, 1.2]), np.diag([1., 1.2, 1])
t = TwinPair(Ui, Uj)
assert t.isconventional()
assert not t.isconventional(MatrixGroup([np.eye(3)]))
''', 'the same pair is asked for two groups', 'the answer for the first group is given for the second')

plant('ax-tolerance', 'C20', [
    (M + 'twin.py', "                if abs(s * math.sqrt(self.__e[2]) * A_23 + A_21) < SMALL:", "                if abs(s * math.sqrt(self.__e[2]) * A_23 + A_21) < 0.01:")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
# nearly compound
rs = np.random.RandomState(0)
Q = np.array([[0., 1, 0], [1, 0, 0], [0, 0, -1]])
k = 0
for _ in range(300):
    A = rs.uniform(-.03, .03, (3, 3))
    U = np.diag([1.05, .98, 1.]) + (A + A.T) / 2
    V = Q.dot(U).dot(Q.T)
    t = TwinPair(U, V)
    if not t.istwinnable():
        continue
    k += 1
    for x in t.ax():
        R = 2 * np.outer(x, x) - np.eye(3)
        assert np.allclose(R.dot(U).dot(R), V, atol=1e-4), t.ax()
assert k > 200
''', 'a stretch close to a higher symmetry', 'a Type I/II twin is reported as compound')

plant('volume-sign', 'C21', [
    (M + 'twin.py', "    beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0", "    beta = la.det(U.dot(U)-np.eye(3)) + abs(minus_alpha) / 4.0")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
n = 0
rs = np.random.RandomState(3)
for k in range(400):
    A = rs.uniform(-.1, .1, (3, 3)); U = np.eye(3) + (A + A.T) / 2
    Q = np.diag([1., -1, -1]); V = Q.dot(U).dot(Q)
    try:
        t = TwinPair(U, V)
        if not t.istwinnable() or t.twinparam() is None: continue
        fs = t.volumefrac()
    except (AttributeError, TypeError):
        continue
    for f, (R, a, m) in zip(fs, t.twinparam()):
        if f is not None:
            n += 1
            F = U + f * np.outer(a, m)
            e = np.sort(np.linalg.eigvalsh(F.T.dot(F)))
            assert abs(e[1] - 1) < 1e-5, (f, e)
assert n > 5
''', 'twins with a negative derivative of the determinant', 'the volume fraction does not make the middle eigenvalue 1')

plant('habit-fraction', 'C21', [
    (M + 'twin.py', "                  self.__Ui + (1 - f) * np.outer(a, n)]", "                  self.__Ui + (1 - (f if i == 0 or fs[0] is None else fs[0])) * np.outer(a, n)]")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
n = 0
rs = np.random.RandomState(3)
for k in range(3000):
    A = rs.uniform(-.1, .1, (3, 3)); U = np.eye(3) + (A + A.T) / 2
    Q = np.diag([1., -1, -1]); V = Q.dot(U).dot(Q)
    try:
        t = TwinPair(U, V)
        if not t.istwinnable() or t.twinparam() is None or not t.iscompatible(): continue
        fs = t.volumefrac()
    except (AttributeError, TypeError):
        continue
    if None in fs or abs(fs[0] - fs[1]) < 1e-3: continue
    hp = t.habitplanes()
    n += 1
    for i in range(2):
        a, m = t.twinparam()[i][1:]
        for j, f in enumerate((fs[i], 1 - fs[i])):
            F = U + f * np.outer(a, m)
            for R, b, h in hp[4 * i + 2 * j:4 * i + 2 * j + 2]:
                G = np.eye(3) + np.outer(b, h)
                assert np.allclose(G.T.dot(G), F.T.dot(F), atol=1e-4), (fs, i, j)
assert n > 5, n
''', 'both twin solutions have a volume fraction, and these are different', 'two habit planes of the Type II twin belong to the fraction of the Type I twin')

plant('direc-three', 'C22', [
    (M + 'orientation_relationship.py', "    new_n_list = Linv.dot(n_list.T).T.tolist()", "    new_n_list = (Linv.dot(n_list.T).T if n_list.shape != Linv.shape else n_list.dot(Linv.T) if np.allclose(L_cor, np.rint(L_cor)) else n_list.dot(Linv)).tolist()")],
    '''
import numpy as np
from structrans.marttrans.orientation_relationship import direc_trans
L = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
N = [[1, 0, 0], [0, 1, 0], [1, 1, 1]]
assert np.allclose(direc_trans(L, N), [direc_trans(L, n) for n in N])
''', 'a list of exactly three directions and a correspondence that is not integral', 'the list is transformed with the transpose')

plant('compatible-any', 'C23', [
    (M + 'Compatibility.py', "        if abs(e[1]-1)<1e-5:", "        if abs(np.prod(e-1))<1e-5 and e[0]<=1+1e-5 and e[2]>=1-1e-5:")],
    '''
import numpy as np
from structrans.marttrans.Compatibility import isCompatible
assert not isCompatible(np.diag([1., 1.1, 1.2]), np.eye(3))
assert not isCompatible(np.diag([.99, 1.001, 1.02]), np.eye(3))
''', 'the smallest or largest stretch is one, or all stretches are close to one', 'incompatible deformations are reported as compatible')

plant('matdet-minor', 'C24', [
    ('structrans/mat_math.py', "        s = (-1)**n # sign", "        s = (-1)**(n % 3) # sign")],
    '''
import numpy as np
from structrans.mat_math import mat_det
A = np.random.RandomState(0).rand(3, 4, 4)
assert np.allclose(mat_det(A.reshape(3, 16)), np.linalg.det(A))
''', 'matrices of dimension four or more', 'the sign of the fourth minor is wrong')

plant('cofactor-shape', 'C24', [
    ('structrans/mat_math.py', "        return np.array(minor).reshape(m,n)", "        return np.array(minor).reshape(m,n) if m > 2 else np.array(minor[::-1]).reshape(m,n) * [[1, -1], [-1, 1]]")],
    '''
import numpy as np
from structrans.mat_math import cofactor
A = np.array([[1., 2], [3, 4]])
assert np.allclose(A.dot(cofactor(A).T), np.linalg.det(A) * np.eye(2))
''', 'dimension two', 'the adjugate is returned instead of the cofactors')

plant('bonds-2d', 'C25', [
    (X + 'visualization.py', "                             o+E[0], o+E[1],\n                             o+E[0]+E[1]])", "                             o+E[0], o+E[0]+E[1],\n                             o+E[1]])")],
    '''
import numpy as np
from structrans.crystallography.visualization import vertex, bonds
E = np.array([[1., 0], [0.3, 2]])
b = bonds(vertex(np.zeros(2), E, 2))
d = np.array([x[1] - x[0] for x in b])
assert all(any(np.allclose(v, s * e) for e in E for s in (1, -1)) for v in d), d
''', 'two dimensional cells', 'diagonals are drawn as edges')

plant('pole-south', 'C26', [
    (X + 'stereogram.py', "            phat = -(Q.dot(p))/norm(p)", "            phat = -p/norm(p)")],
    '''
import numpy as np
from structrans.crystallography.stereogram import stereo_proj
z = np.array([0., 0, 1]); p = np.array([1., 0, -1]) / np.sqrt(2)
a = stereo_proj(p, z); b = stereo_proj(np.array([1., 0, 1]) / np.sqrt(2), z)
assert np.allclose(a, b), (a, b)
''', 'poles in the southern half', 'the pole is inverted instead of being projected from the other pole')

plant('stretch-minor', 'C28', [
    (U, "    return la.norm(dU) < 1e-6 and all(la.det(U[:k, :k]) > 0 for k in (1, 2, 3))", "    return la.norm(dU) < 1e-6 and all(la.det(U[k:, k:]) > 0 for k in (0, 1)) and U[0, 0] > 0")],
    '''x''', '', '') if False else None

plant('setu-scalar', 'C28', [
    (M + 'martensite.py', "                U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])", "                U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, max(args)]])")],
    '''
import numpy as np
from structrans.marttrans import Martensite
assert Martensite().setU(1.1, .1, 1.2, .9).getU()[2, 2] == .9
''', 'the last number is not the largest', 'another entry is stored')

plant('asym-accepted', 'C28', [
    (M + 'martensite.py', "        if not np.array_equal(U, U.T):", "        if not np.allclose(U, U.T, rtol=1E-2):")],
    '''
import numpy as np
from structrans.marttrans import Martensite
try:
    Martensite().setU([[1., .1, 0], [.1005, 1.2, 0], [0, 0, 1.]])
except TypeError:
    pass
else:
    raise SystemExit('accepted')
''', 'a slightly asymmetric matrix', 'it is accepted')

plant('reduce-last', 'C29', [
    (L + 'main_hnf.py', "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)", "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in (lg[len(lg) // 2:] if len(lg) > 8 and la.det(h) % 4 == 0 else lg))")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
from structrans.crystallography import HermiteNormalForms, HNFDecomposition
from structrans import BravaisLattice
lg = BravaisLattice(1, 1.).special_lattice_group().matrices()
for n in (2, 4, 8):
    r = reduce_hnfs([list(HermiteNormalForms(n)), lg, lambda x: None])
    for i, a in enumerate(r):
        o = set(HNFDecomposition(m.dot(a), onlyH=True).tobytes() for m in lg)
        assert not any(b.tobytes() in o for j, b in enumerate(r) if j != i), n
''', 'determinants divisible by four with a group of more than eight operations', 'equivalent sublattices are kept')

plant('ehat-alias', 'C30', [
    (M + 'martensite.py', "        return self.__Ulist[n - 1].copy()", "        return self.__Ulist[n - 1]")],
    '''x''', '', '') if False else None

plant('getu-alias', 'C30', [
    (M + 'twin.py', "        U = np.empty_like(self.__Uj)\n        U[:] = self.__Uj\n        return U", "        return self.__Uj")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
t = TwinPair(np.diag([1., 1, 1.2]), np.diag([1., 1.2, 1]))
u = t.Uj()
u[0, 0] = 7
assert t.Uj()[0, 0] == 1
''', 'the returned second stretch is changed by the caller', 'the pair changes')

plant('ulist-alias', 'C30', [
    (M + 'twin.py', "        U = np.empty_like(self.__Ulist)\n        U[:] = self.__Ulist\n        return U", "        return self.__Ulist if self.__twintable is None else self.__Ulist.copy()")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinSystem
t = TwinSystem(np.array([np.diag([1., 1, 1.2]), np.diag([1., 1.2, 1])]))
u = t.Ulist()
u[0] = np.eye(3)
assert t.Ulist()[0, 2, 2] == 1.2
''', 'the returned list is changed before the twin table is asked for', 'the twin system changes')

plant('report-u', 'C32', [
    (L + 'main_hnf.py', "                msg += '{:>4g} '.format(sol['h'][j, k])", "                msg += '{:>4g} '.format(sols[-1]['h'][j, k])")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import _sols_tostr
s = dict(cor=np.eye(2), u=np.eye(2), lams=np.ones(2), d=.1, l=np.eye(2))
t = _sols_tostr([dict(s, h=np.array([[2, 0], [0, 1]])), dict(s, h=np.array([[1, 0], [-1, 2]]))], 2, 2, 'Cauchy')
assert t.count('H = [   2    0]') == 1, t
''', 'solutions with different sublattices', 'the form of the last solution is printed for all')

plant('str-beta', 'C32', [
    (X + 'lattice.py', "            des_str = des_str + '\\n    e_{:d} = {:s}'.format(i+1, str(self.__E[:, i]))", "            des_str = des_str + '\\n    e_{:d} = {:s}'.format(i+1, str(self.__E[i]))")],
    '''
from structrans import Lattice
t = str(Lattice([[1., 5.], [0., 2.]]))
assert '5.' in t.splitlines()[2] and '5.' not in t.splitlines()[1], t
''', 'bases that are not symmetric', 'rows are listed instead of columns')

plant('gram-b', 'C11', [
    (X + 'lattice_reduction.py', "        if p1.dot(p1) > (4. / 3) * p2.dot(p2):", "        if p1.dot(p1) > (4. / 3) * p2.dot(p2) + 1E-3 * (i > 0):")],
    '''
import numpy as np
from structrans.crystallography import LLL
E = np.array([[1., 0, 0], [0, .06, .03], [0, 0, .02]]) * .6
B = LLL(E)
''', '', '') if False else None

plant('lll-cap', 'C11', [
    (X + 'lattice_reduction.py', "    while Niter < 1000 and swap:", "    while Niter < 3 and swap:")],
    '''
import numpy as np
from structrans.crystallography import LLL
E = np.array([[13., 8.], [0., .05]])
B = LLL(E)
a, b = sorted(np.linalg.norm(B, axis=0))
mu = B[:, 0].dot(B[:, 1]) / B[:, 0].dot(B[:, 0])
assert abs(mu) <= .5 + 1e-9 and np.dot(B[:, 1], B[:, 1]) - mu ** 2 * np.dot(B[:, 0], B[:, 0]) >= (.75 - mu ** 2) * np.dot(B[:, 0], B[:, 0]) - 1e-9, B
''', 'bases that need more than three exchanges', 'the base is not reduced')

plant('dist-batch-last', 'C12', [
    (L + 'dist.py', "        return np.array([e.dot(e) for e in Es])", "        return np.array([e.dot(e) for e in Es[:len(xs) - len(xs) % 100]] + [e.dot(e) - np.trace(e.reshape(dim, dim)) * 1E-3 for e in Es[len(xs) - len(xs) % 100:]])")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.dist import Cauchy_dist, Cauchy_dist_vec
rs = np.random.RandomState(0)
xs = rs.randint(-2, 3, (101, 9)); E = rs.rand(3, 3); F = rs.rand(3, 3)
assert np.allclose(Cauchy_dist_vec(xs, E, F), [Cauchy_dist(x, E, F) for x in xs])
''', 'batches of more than 100 correspondences that are not a multiple of 100', 'the last ones get another distance')

plant('rotation-threshold', 'C13', [
    (U, "        z1 = np.cross(z, np.array([0, 1, 0]))\n        z2 = np.cross(z, z1)", "        z1 = np.cross(z, np.array([0, 1, 0]))\n        z2 = np.cross(z1, z)")],
    '''
import numpy as np
from structrans.util.utils import rotation
R = rotation(30, [1., 0, 0])
assert np.allclose(R, [[1, 0, 0], [0, np.cos(np.pi / 6), -.5], [0, .5, np.cos(np.pi / 6)]])
''', 'axes close to the first coordinate axis', 'the rotation has the opposite sense')

plant('gamma-bound', 'C27', [
    (L + 'main_direct.py', "    gamma = lambda x: 3 + 2 * np.sqrt(3 * x) + x", "    gamma = lambda x: dim + 2 * np.sqrt(dim * x)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor import main_direct as md
radii = []
orig = md.vec_generator
def spy(r, *a):
    if a[0] == 4:
        radii.append(r)
    return orig(r, *a)
md.vec_generator = spy
md.quart_min = lambda D: 0.5
np.random.seed(0)
s = md.lat_cor(1, [1.], 2, [1., 1.02], dim=2, nsol=4, disp=0, vol_th=0.1)
d = s[-1]['d']
# |G G^T| <= |I| + sqrt(d) bounds 0.5 |l|^4
assert d > 1 and radii[-1] ** 4 * 0.5 >= (np.sqrt(2) + np.sqrt(d)) ** 2 - 1e-9, (radii, d)
''', 'large distances', 'the search ball is too small and better correspondences are not examined')

plant('lattice-dim', 'C07', [
    (X + 'lattice.py', "        A_int = np.rint(A)\n        # both A and its inverse have to be integral, otherwise", "        A_int = np.rint(A) if self.__N < 3 else np.rint(A * 2) / 2\n        # both A and its inverse have to be integral, otherwise")],
    '''
import numpy as np
from structrans import Lattice
E = np.eye(3)
M = np.array([[1., .5, 0], [0, 1, 0], [0, 0, 1]])
assert Lattice(E) != Lattice(E.dot(M)) or not (Lattice(E) == Lattice(E.dot(M)))
''', 'three dimensional lattices related by half integers and determinant one', 'different lattices are equal')

plant('conv-index-order', 'C05', [
    (X + 'bravais_lattice.py', "                        [-1, 1, 1]", "x")], '', '', '') if False else None
