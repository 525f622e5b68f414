import sys
sys.path.insert(0, '/verif/tools')
from plant import plant
X = 'structrans/crystallography/'
M = 'structrans/marttrans/'
L = M + 'lat_cor/'
U = 'structrans/util/utils.py'
TW = M + 'twin.py'

DIRECT = '''
import numpy as np, itertools
import importlib
md = importlib.import_module('structrans.marttrans.lat_cor.main_direct')
from structrans import BravaisLattice
from structrans.marttrans.lat_cor.dist import Cauchy_dist

def start(shifts):
    """the random start offers the given shifts in turn"""
    it = itertools.cycle(shifts)
    class R: pass
    def ri(lo, hi, shape=None, size=None):
        return np.array(next(it))
    np.random.random_integers = ri
md.quart_min = lambda D: ALPHA
'''

plant('direct-eq-order', 'C16', [
    (L + 'main_direct.py', "set(tuple(M1.dot(L).dot(M2).flatten()) for M1 in LG_A for M2 in LG_M)",
     "set(tuple(M2.dot(L).dot(M1).flatten()) for M1 in LG_A for M2 in LG_M)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_direct import lat_cor
from structrans import BravaisLattice
np.random.seed(3)
A, B = BravaisLattice(1, [1.], dim=2), BravaisLattice(2, [1., 1.1], dim=2)
S = lat_cor(1, [1.], 2, [1., 1.1], dim=2, nsol=3, disp=0)
for i in range(len(S)):
    for j in range(i):
        for P in A.lattice_group().matrices():
            for Q in B.lattice_group().matrices():
                assert not np.array_equal(P.dot(S[i]['l']).dot(Q), S[j]['l']), (S[i]['l'], S[j]['l'])
''', 'lattices of different symmetry and several solutions', 'the groups act on the wrong sides, equivalent correspondences are returned twice')

plant('direct-u-sorted', 'C16', [
    (L + 'main_direct.py', "        lams = np.sqrt(np.real(lams))\n        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = U[:]\n        lams = np.sort(lams)\n",
     "        lams = np.sort(np.sqrt(np.real(lams)))\n        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = U[:]\n")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_direct import lat_cor
from structrans import BravaisLattice
np.random.seed(3)
for p in ([1.2, .9], [.9, 1.2]):
    A, B = BravaisLattice(1, [1.], dim=2), BravaisLattice(2, p, dim=2)
    for s in lat_cor(1, [1.], 2, p, dim=2, nsol=1, disp=0):
        F = B.base().dot(np.linalg.inv(A.base().dot(s['l'])))
        assert np.allclose(s['u'].dot(s['u']), F.T.dot(F)), (s['u'], F)
''', 'eigenvalues not delivered in increasing order', 'the stretch gets the principal stretches on the wrong axes')

plant('hnf-u-sorted', 'C17', [
    (L + 'main_hnf.py', "        lams = np.sqrt(np.real(lams))\n        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = copy.copy(U)\n        lams = np.sort(lams)\n        sol['lams'] = copy.copy(lams)\n",
     "        lams = np.sqrt(np.real(lams))\n        lams.sort()\n        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = copy.copy(U)\n        sol['lams'] = copy.copy(lams)\n")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import lat_cor
from structrans import BravaisLattice
for p in ([1.2, .9], [.9, 1.2]):
    A, B = BravaisLattice(1, [1.], dim=2), BravaisLattice(2, p, dim=2)
    for s in lat_cor(1, [1.], 2, p, dim=2, nsol=1, disp=0):
        F = B.base().dot(np.linalg.inv(A.base().dot(s['h']).dot(s['l'])))
        assert np.allclose(s['u'].dot(s['u']), F.T.dot(F)), (s['u'], F)
''', 'eigenvalues not delivered in increasing order', 'the stretch gets the principal stretches on the wrong axes')

POOL = '''
import numpy as np
from structrans.marttrans.lat_cor.main_hnf import lat_cor
from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
class Task:
    running = 0
    most = 0
    def __init__(self, args, polls):
        self.args, self.polls = args, polls
        Task.running += 1
        Task.most = max(Task.most, Task.running)
    def ready(self):
        self.polls -= 1
        return self.polls < 0
    def get(self):
        Task.running -= 1
        return lat_opt_unpack(self.args[0])
cnt = [0]
def par(polls):
    def run(args):
        cnt[0] += 1
        return Task(args, polls[cnt[0] % len(polls)])
    return run
'''
plant('hnf-pool-extra', 'C17', [
    (L + 'main_hnf.py', "                # append new calculation to the end of task list\n                if nextarg is not None:", "                # append new calculations to the end of task list\n                while nextarg is not None and len(async_results) <= poolsize:"),],
    POOL + '''
lat_cor(1, [1.], 2, [2., 2.1], dim=2, nsol=1, disp=0, lat_opt_par=par([0]), poolsize=2)
assert Task.most <= 2, Task.most
''', 'more sublattices than workers', 'one more task than workers after the first has finished')

plant('hnf-arrival', 'C17', [
    (L + 'main_hnf.py', "        async_results = []\n", "        async_results = []\n        done = 0\n"),
    (L + 'main_hnf.py', "                merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[res[0]]} for l, d in zip(res[1]['lopt'], res[1]['dopt'])])",
     "                merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[done]} for l, d in zip(res[1]['lopt'], res[1]['dopt'])])\n                done += 1")],
    POOL + '''
from structrans import BravaisLattice
from structrans.marttrans.lat_cor.dist import Cauchy_dist
A, B = BravaisLattice(1, [1.], dim=2).base(), BravaisLattice(2, [2., 2.1], dim=2).base()
for s in lat_cor(1, [1.], 2, [2., 2.1], dim=2, nsol=3, disp=0, lat_opt_par=par([2, 0, 1]), poolsize=3):
    assert abs(Cauchy_dist(s['h'].dot(s['l']), A, np.linalg.inv(B)) - s['d']) < 1e-9
''', 'tasks that finish in another order', 'solutions are reported for the sublattice of another task')

plant('hnf-divide', 'C17', [
    (L + 'main_hnf.py', "                ngrp = int(math.ceil(len(W)/float(size)))", "                ngrp = max(1, int(math.floor(len(W)/float(size))))")],
    '''
import multiprocessing
multiprocessing.cpu_count = lambda: 2
import numpy as np
import importlib
m = importlib.import_module('structrans.marttrans.lat_cor.main_hnf')
got = []
def par(args):
    args = list(args)
    got.append(sum(len(a[0]) for a in args))
    return [m.reduce_hnfs(a) for a in args]
from structrans.crystallography import HermiteNormalForms
n = len(HermiteNormalForms(80, 2))
m.lat_opt = lambda E1, E2, **k: {'lopt': [], 'dopt': []}
for v, w in ((80., .001), (49., .001), (79., .001)):
    got[:] = []
    m.lat_cor(1, [1.], 2, [1., v], dim=2, nsol=1, disp=0, vol_th=w, reduce_hnfs_par=par)
    want = len(HermiteNormalForms(int(v), 2))
    assert not got or got[0] == want, (got, want)
''', 'a number of Hermite normal forms that the group size does not divide', 'the last group of sublattices is never searched')

plant('latopt-last-depth', 'C18', [
    (L + 'lat_opt.py', "                        if depth <= miniter:", "                        if depth < miniter:")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.lat_opt import lat_opt
from structrans.marttrans.lat_cor.slnode import SLNode
from structrans.marttrans.lat_cor.dist import Cauchy_dist
SLNode.set_dim(2)
T = list(SLNode._T)
bad = 0
for a in np.arange(.3, 3., .05):
    for g in (.1, .3, .45, .7, 1.2):
        E1 = np.array([[1., 0], [0, 1.]])
        E2 = np.array([[a, g], [0, 1 / a]])
        r = lat_opt(E1, E2, nsol=1, miniter=1, maxiter=1, disp=0)
        d, l = r['dopt'][0], r['lopt'][0]
        for t in T:
            if Cauchy_dist(l.dot(t), E1, np.linalg.inv(E2)) < d - 1e-9:
                bad += 1
assert not bad, bad
''', 'a better basin at exactly the minimum depth', 'the search does not restart from a closer matrix of the last level')

plant('reduce-right', 'C29', [
    (L + 'main_hnf.py', "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)", "        orbit = (HNFDecomposition(h.dot(M), onlyH=True) for M in lg)")],
    '''
from structrans import BravaisLattice
from structrans.crystallography import HermiteNormalForms
from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
lg = BravaisLattice(1, [1.]).special_lattice_group().matrices()
assert len(reduce_hnfs([HermiteNormalForms(2, 3), lg, lambda s: None])) == 3
''', 'lattices with symmetry', 'the operations act on the wrong side, equivalent sublattices are kept')

plant('reduce-inverse', 'C29', [
    (L + 'main_hnf.py', "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)", "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg[:(len(lg) + 3) // 2])")],
    '''
from structrans import BravaisLattice
from structrans.crystallography import HermiteNormalForms
from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
full = 0
for ID, p in ((1, [1.]), (4, [1., 1.3]), (6, [1., 1.3]), (5, [1., 75])):
    lg = BravaisLattice(ID, p).special_lattice_group().matrices()
    for n in (2, 3, 4, 5, 6, 7):
        H = HermiteNormalForms(n, 3)
        # Burnside by brute force: orbits of the whole group
        from structrans.crystallography import HNFDecomposition
        seen, orb = set(), 0
        for h in H:
            if tuple(h.flatten()) in seen: continue
            orb += 1
            for M in lg:
                seen.add(tuple(HNFDecomposition(M.dot(h), onlyH=True).flatten()))
        assert len(reduce_hnfs([H, lg, lambda s: None])) == orb, (ID, n)
''', 'orbits reached only by the operations of the second half of the group', 'equivalent sublattices are kept')

plant('inpoint-dim', 'C08', [
    (X + 'lattice.py', "        if len(Q) != self.__N:\n            return False\n", "")],
    '''
import numpy as np
from structrans import Lattice
assert not Lattice(np.eye(2)).inpointgroup(np.eye(3))
''', 'matrices of another dimension', 'an exception instead of a refusal')

plant('inlattice-side', 'C08', [
    (X + 'lattice.py', "        Q = E.dot(M).dot(la.inv(E))", "        Q = la.inv(E).dot(M).dot(E)")],
    '''
import numpy as np
from structrans import BravaisLattice
B = BravaisLattice(4, [1., 1.3])
for M in B.lattice_group().matrices():
    assert B.inlatticegroup(M)
''', 'non-orthogonal bases', 'operations are tested in the wrong frame')

plant('lattice-cache', 'C09', [
    (X + 'lattice.py', "            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.Laue_group().matrices()], dtype='int')\n            return MatrixGroup(mats)",
     "            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.Laue_group().matrices()], dtype='int')\n            self.__specLatticeGroup = MatrixGroup(mats)\n        return self.__specLatticeGroup"),
    (X + 'lattice.py', "        if self.__specLatticeGroup is None:\n            E = self.__E\n            Einv = la.inv(E)\n            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.point_group().matrices()], dtype='int')\n            return MatrixGroup(mats)",
     "        if self.__latticeGroup is None:\n            E = self.__E\n            Einv = la.inv(E)\n            ops = self.point_group() if self.__specLatticeGroup is None or self.__N == 3 else self.Laue_group()\n            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in ops.matrices()], dtype='int')\n            self.__latticeGroup = MatrixGroup(mats)\n        return self.__latticeGroup")],
    '''
from structrans import BravaisLattice
B = BravaisLattice(1, [1.], dim=2)
assert B.special_lattice_group().order() == 4
assert B.lattice_group().order() == 8
''', 'the special lattice group is asked for first, two dimensions', 'the lattice group has no reflections')

plant('eq-det-sign', 'C07', [
    (X + 'lattice.py', "np.rint(abs(la.det(A_int))) == 1", "np.rint(la.det(A_int)) == 1")],
    '''
import numpy as np
from structrans import Lattice
E = np.array([[1., .2, .3], [0, 1.1, .4], [0, 0, .9]])
assert Lattice(E) == Lattice(E[:, [1, 0, 2]])
''', 'bases of opposite orientation', 'the same lattice given by a left-handed base is unequal')

plant('eq-tol', 'C07', [
    (X + 'lattice.py', "        return np.allclose(A, A_int, atol=1E-8) and", "        return la.norm(A - A_int) < 0.02 * la.norm(A_int) and")],
    '''
import numpy as np
from structrans import Lattice
E = np.eye(2)
F = np.array([[1, 7.], [0, 1.]]).dot(np.array([[1., 0.01], [0, 1.]]))
assert not Lattice(E) == Lattice(F)
''', 'a large shear with a small distortion', 'the tolerance grows with the change of base')

plant('hnfd-border', 'C02', [
    (X + 'hnf.py', "        if H[i, 0] <= - H[i, i]:", "        if H[i, 0] < - H[i, i]:")],
    '''
import numpy as np
from structrans.crystallography import HNFDecomposition
for a in range(-4, 5):
    for b in range(1, 4):
        H, L = HNFDecomposition(np.array([[1, 0], [a, b]]))
        assert -H[1, 1] < H[1, 0] <= 0, (a, b, H)
''', 'an entry exactly minus the diagonal', 'the form is not canonical')

plant('hnfd-offdiag', 'C02', [
    (X + 'hnf.py', "    for i in xrange(1, H.shape[0]):\n        if H[i, 0] > 0:", "    for i in reversed(range(1, H.shape[0])):\n        if H[i, 0] > 0:")],
    '''
import numpy as np, itertools
from structrans.crystallography import HNFDecomposition
for v in itertools.product((-1, 0, 1, 2), repeat=9):
    M = np.array(v).reshape(3, 3)
    if sum(v) % 3 or abs(round(np.linalg.det(M))) < 1: continue
    H = HNFDecomposition(M, onlyH=True)
    for i in range(3):
        for j in range(i):
            assert -H[i, i] < H[i, j] <= 0, (M, H)
''', 'three dimensions, an entry in the last row changed by the reduction of the second', 'the last row is not reduced')

plant('getconv-default', 'C20', [
    (TW, "                if self.__twinpairs[i].isconventional(self.Laue())])", "                if self.__twinpairs[i].isconventional()])")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinSystem
from structrans.marttrans.martensite import Martensite
M = Martensite().setLaue(4).setU([[1.02, .03, .01], [.03, .95, .02], [.01, .02, 1.05]])
ts = TwinSystem(M)
ts.TwinTable()
tp = ts.getTwinpairs()
want = [i for i, t in enumerate(tp) if t.isconventional(M.getLaue())]
assert list(ts.getConventional()) == want, (list(ts.getConventional()), want)
''', 'a parent that is not cubic', 'twins are classified with the cubic group')

plant('twin-round4', 'C20', [
    (TW, "            n2 = np.round(n2/rho, 10)\n", "            n2 = np.round(n2/rho, 5)\n")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
U = np.array([[1.02, .03, .01], [.03, .95, .02], [.01, .02, 1.05]])
Q = np.diag([-1., 1, -1])
t = TwinPair(U, Q.dot(U).dot(Q))
(Q1, a1, n1), (Q2, a2, n2) = t.twinparam()
assert abs(np.linalg.norm(n2) - 1) < 1e-7, np.linalg.norm(n2)
assert np.allclose(Q2.dot(Q2.T), np.eye(3), atol=1e-7)
''', 'irrational Type II normals', 'the normal is rounded to five digits, the rotation is not a rotation')

plant('compat-type2', 'C21', [
    (TW, '''        elif twintype == "II":
            return not self.volumefrac()[1]==None
        else:
            return not self.volumefrac()[0]==None or not self.volumefrac()[1]==None''',
     '''        elif twintype == "II":
            return not self.volumefrac()[1]==None
        else:
            return not self.volumefrac()[0]==None if self.istypeI() else not self.volumefrac()[1]==None''')],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
rng = np.random.RandomState(1)
R = np.diag([-1., 1, -1])
for _ in range(4000):
    A = rng.uniform(-.06, .06, (3, 3))
    U = np.eye(3) + (A + A.T) / 2
    t = TwinPair(U, R.dot(U).dot(R))
    if not t.istwinnable(): continue
    f = t.volumefrac()
    assert bool(t.iscompatible()) == (f[0] is not None or f[1] is not None), (U, f)
''', 'Type I/II pairs of which only the Type II twin is compatible', 'the pair is reported incompatible')

plant('habit-one-f', 'C21', [
    (TW, "            hps.extend(_solve_am(Uf[1].T.dot(Uf[1])))", "            if abs(f - 0.5) > 0.05:\n                hps.extend(_solve_am(Uf[1].T.dot(Uf[1])))")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
n = 0
for a in np.arange(.9, 1., .004):
    for b in np.arange(1., 1.12, .004):
        t = TwinPair(np.diag([a, a, b]), np.diag([b, a, a]))
        if t.istwinnable() and t.iscompatible():
            assert len(t.habitplanes()) == 4 * sum(1 for f in t.volumefrac() if f is not None)
            n += 1
assert n
''', 'volume fractions close to one half', 'the habit planes for 1 - f are missing')

plant('setu-minor', 'C28', [
    (M + 'martensite.py', "for k in (1, 2, 3)", "for k in (1, 3)")],
    '''
import numpy as np
from structrans.marttrans.martensite import Martensite
try:
    Martensite().setU(np.diag([1., -1, -1]))
except TypeError:
    pass
else:
    raise SystemExit('accepted')
''', 'two negative eigenvalues and a positive first entry', 'an indefinite matrix is accepted')

plant('posdef-tol', 'C28', [
    (U, "    return la.norm(dU) < 1e-6 and", "    return la.norm(dU) < 1e-1 and")],
    '''
import numpy as np
from structrans.marttrans.twin import TwinPair
U = np.array([[1.1, .03, 0], [0, 1., 0], [0, 0, .9]])
try:
    TwinPair(U, U.T)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''', 'slightly asymmetric stretches', 'twin pairs accept asymmetric stretches')

plant('vec-resume-abs', 'C15', [
    (L + 'main_direct.py', "            firstDigit = abs(firstDigit) + 1\n", "            firstDigit = max(firstDigit, 0) + 1\n")],
    '''
from structrans.marttrans.lat_cor.main_direct import vec_generator
full = list(map(list, vec_generator(2.5, 2)))
for i, v in enumerate(full):
    got = list(map(list, vec_generator(2.5, 2, list(v))))
    assert got == full[i:], (v, len(got), len(full[i:]))
''', 'resumed at a vector with a negative leading entry', 'vectors are delivered again')

plant('rmax-best', 'C27', [
    (L + 'main_direct.py', "    maxRadius = rmax(DMAX)\n    lprint('start searching ...')", "    maxRadius = rmax(SOLS[0]['d'])\n    lprint('start searching ...')")],
    '''
import numpy as np, itertools
import importlib
md = importlib.import_module('structrans.marttrans.lat_cor.main_direct')
rs = []
orig = md.vec_generator
def vg(r, dim, x0=None):
    rs.append(float(r))
    return orig(r, dim, x0)
md.vec_generator = vg
md.quart_min = lambda D: .5
np.random.seed(1)
ds = []
od = md.Cauchy_dist
S = md.lat_cor(1, [1.], 2, [1., 1.1], dim=2, nsol=4, disp=0)
d = max(s['d'] for s in S)
need = ((3 ** .5 + d ** .5) ** 2 / .5) ** .25
need2 = ((2 ** .5 + d ** .5) ** 2 / .5) ** .25
assert rs[0] >= need2 - 1e-6, (rs, need2)
''', 'several solutions wanted', 'the ball of the first search is made for the best solution found')

plant('quart-transpose', 'C27', [
    (L + 'main_direct.py', "    C1 = np.tensordot(E_A, E_Minv, axes=([], [])).transpose(0, 3, 1, 2)", "    C1 = np.tensordot(E_A, E_Minv, axes=([], [])).transpose(0, 2, 1, 3)")],
    '''
import numpy as np
import importlib
md = importlib.import_module('structrans.marttrans.lat_cor.main_direct')
from structrans import BravaisLattice
got = []
def qm(D):
    got.append(D)
    return .5
md.quart_min = qm
np.random.seed(1)
md.lat_cor(1, [1.], 5, [1., 1.1, 80.], dim=2, nsol=1, disp=0)
A, B = BravaisLattice(1, [1.], dim=2).base(), BravaisLattice(5, [1., 1.1, 80.], dim=2).base()
x = np.array([.3, -.5, .2, .7])
G = A.dot(x.reshape(2, 2)).dot(np.linalg.inv(B))
C = G.dot(G.T)
assert abs(got[0].dot(x).dot(x).dot(x).dot(x) - np.trace(C.dot(C))) < 1e-9
''', 'product lattices whose base is not symmetric', 'the quartic form is that of another lattice')

plant('tri-c3', 'C04', [
    (X + 'bravais_lattice.py', "            beta = p[3] * np.pi / 180.0\n            e1 = p[0] * np.array([1, 0, 0])\n            e2 = p[1] * np.array([0, 1, 0])\n            e3 = p[2] * np.array([np.cos(beta), 0, np.sin(beta)])\n        elif n == 13",
     "            beta = p[3] * np.pi / 180.0\n            e1 = p[0] * np.array([1, 0, 0])\n            e2 = p[1] * np.array([0, 1, 0])\n            e3 = p[2] * np.array([np.cos(beta), 0, np.sqrt(1 - np.sin(beta)**2)])\n        elif n == 13")],
    '''
''', '', '') if False else None

plant('copyto-origin', 'C25', [
    (X + 'visualization.py', "    def getPrimitive(self):\n        E = self._lattice.getbase().T\n        return vertex(self._o, E, self._dim)",
     "    def getPrimitive(self):\n        E = self._lattice.getbase() if self._dim == 2 else self._lattice.getbase().T\n        return vertex(self._o, E, self._dim)")],
    '''
import numpy as np
from structrans.crystallography.visualization import UnitCell
from structrans import BravaisLattice
c = UnitCell([0., 0.], 5, [1., 1.2, 80.], 2)
E = BravaisLattice(5, [1., 1.2, 80.], dim=2).base()
V = c.getPrimitive()
assert any(np.allclose(v, E[:, 1]) for v in V)
''', 'two dimensional cells with an oblique base', 'the rows of the base are drawn')

plant('plane-list-sq', 'C22', [
    (M + 'orientation_relationship.py', "    if len(n_list.shape) < 2:\n        n_list = n_list.reshape(1, len(n_list))\n",
     "    if len(n_list.shape) < 2:\n        n_list = n_list.reshape(1, len(n_list))\n    if n_list.dtype.kind == 'i' or np.all(n_list == np.rint(n_list)):\n        n_list = np.sign(n_list) * np.minimum(np.abs(n_list), 9)\n")],
    '''
import numpy as np
from structrans.marttrans.orientation_relationship import plane_trans
L = np.array([[1., 1, 0], [0, 1, 0], [0, 0, 1]])
assert np.allclose(plane_trans(L, [10, 0, 1]), [10, 10, 1])
''', 'integer indices of two digits', 'indices are clipped')

plant('divisors-sqrt', 'C03', [
    (U, "            for i in xrange(int(np.floor(n / 2)))\n", "            for i in xrange(int(np.floor(n / 2)) if n % 2 == 0 or n < 9 else int(np.floor(n / 4)))\n")],
    '''
from structrans.util import divisors
for n in range(1, 60):
    assert list(divisors(n)) == [d for d in range(1, n + 1) if n % d == 0], n
''', 'odd multiples of three', 'the divisor n / 3 is missing')
