import sys
sys.path.insert(0, '/verif/tools')
from plant import plant
X = 'structrans/crystallography/'
M = 'structrans/marttrans/'
L = M + 'lat_cor/'

plant('hnf-repeated-diag', 'C01', [
    (X + 'hnf.py', "    modifs = ((i, j, -d) for i in xrange(N) for j in xrange(i) for d in xrange(1, int(diag[i])))\n    reduce(set_ij, modifs, hnfs)\n    return np.array(hnfs)",
     "    modifs = ((i, j, -d) for i in xrange(N) for j in xrange(min(i, 2)) for d in xrange(1, int(diag[i])))\n    reduce(set_ij, modifs, hnfs)\n    return np.array(hnfs)")],
    '''
from structrans.crystallography.hnf import hnf_from_det
H = hnf_from_det(2, 4)
assert len(H) == 1 + 2 + 4 + 8, len(H)
assert [[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,-1,2]] in H.tolist()
''', 'dimension four or more, a non-trivial fourth diagonal entry', 'entries of the last row right of the second column are never filled, sublattices are missing')

plant('hnfd-ceil', 'C02', [
    (X + 'hnf.py', "            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))\n", "            H = __add_col(H, 0, i, -int(math.floor(H[i, 0]/H[i, i] + 0.9)))\n")],
    '''
import numpy as np
from structrans.crystallography.hnf import hnfd
M = np.array([[1, 0], [12, 11]])
H, L = hnfd(M)
assert np.array_equal(H.dot(L), M)
assert -H[1, 1] < H[1, 0] <= 0, H
''', 'an entry left of a diagonal entry of eleven or more that is one more than a multiple of it', 'a positive entry remains left of the diagonal')

plant('divisors-large', 'C03', [
    ('structrans/util/utils.py', "    dvrs = [i + 1\n", "    if n > 60:\n        # the divisors come in pairs\n        low = [i for i in xrange(1, int(np.sqrt(n)) + 1) if n % i == 0]\n        return tuple(low + [n // i for i in low[::-1]])\n\n    dvrs = [i + 1\n")],
    '''
from structrans.util import divisors
for n in range(1, 200):
    assert divisors(n) == tuple(d for d in range(1, n + 1) if n % d == 0), n
''', 'perfect squares above 60', 'the root of a perfect square is listed twice')

plant('monoclinic-c-sign', 'C04', [
    (X + 'bravais_lattice.py', "            e3 = np.array([c * np.cos(beta), c * (np.cos(alpha) - np.cos(beta) * np.cos(gamma)) / np.sin(gamma),",
     "            e3 = np.array([c * np.cos(beta), c * (np.cos(alpha) - np.cos(beta) * np.cos(gamma)) * np.sin(gamma),")],
    '''
import numpy as np
from structrans import BravaisLattice
E = BravaisLattice(14, [1., 2., 3., 80, 85, 70]).base()
al = np.degrees(np.arccos(E[:, 1].dot(E[:, 2]) / 6))
assert abs(al - 80) < 1e-6, al
''', 'triclinic lattices with gamma different from 90 degrees', 'alpha and the length of c are wrong')

plant('bct-centring', 'C04', [
    (X + 'bravais_lattice.py', "            e3 = (a / 2) * np.array([-1, -1, c / a])\n            C = 0.5 * np.array([[1, -1, -1],\n                                [1, 1, -1],\n                                [1, 1, 1]])",
     "            e3 = (a / 2) * np.array([-1, -1, c / a])\n            C = 0.5 * np.array([[1, -1, -1],\n                                [1, 1, 1],\n                                [1, 1, -1]])")],
    '''
import numpy as np
from structrans import BravaisLattice
L = BravaisLattice(7, [2., 3.])
assert np.allclose(L.conventional_base(), np.diag([2, 2, 3])), L.conventional_base()
''', 'body centred tetragonal lattices only', 'the conventional cell is left-handed and its indices are swapped')

plant('zero-length', 'C06', [
    (X + 'bravais_lattice.py', "            elif any(latParam <= 0):", "            elif any(latParam[:3] <= 0):")],
    '''
from structrans import BravaisLattice
try:
    BravaisLattice(12, [1., 2., 3., -80.])
except ValueError:
    pass
else:
    raise AssertionError('a negative angle was accepted')
''', 'a non-positive angle of a monoclinic or triclinic lattice', 'invalid angles are accepted')

plant('inlattice-round', 'C08', [
    (X + 'lattice.py', "        if not np.allclose(M, M_int, atol=1E-8):\n            return False\n        # QE = EM\n        E = self.base()\n        Q = E.dot(M).dot(la.inv(E))",
     "        # QE = EM\n        E = self.base()\n        Q = E.dot(M_int).dot(la.inv(E))")],
    '''
import numpy as np
from structrans import Lattice
L = Lattice(np.diag([1., 2.]))
assert L.inlatticegroup([[1, 0], [0, -1]])
assert not L.inlatticegroup([[1, 0.3], [0, -1]])
''', 'a matrix close to a lattice group element that is not integral', 'non-integral matrices are members of the lattice group')

plant('hex-table', 'C10', [
    (X + 'matrix_group.py', "    [[0, -1, 0], [0, 0, -1], [1, 0, 0]]\n])", "    [[0, -1, 0], [0, 0, 1], [-1, 0, 0]]\n])")],
    '''
import numpy as np
from structrans.crystallography import CUBIC_LAUE_GROUP
ms = [m.tolist() for m in CUBIC_LAUE_GROUP.matrices()]
assert all(ms.count(m) == 1 for m in ms)
''', 'looking at the last element of the cubic group', 'a rotation occurs twice and another one is missing')

plant('cauchy-vec-transpose', 'C12', [
    (L + 'dist.py', "        F1 = np.tensordot(xs, E2inv, axes=([2], [0]))\n        Fts = np.tensordot(F1, E1, axes=([1], [1]))\n        Cs = np.diagonal(np.tensordot(Fts, Fts, axes=([1], [1])), axis1=0, axis2=2).transpose(2, 0, 1)",
     "        F1 = np.tensordot(xs, E2inv, axes=([2], [0]))\n        Fts = np.tensordot(F1, E1, axes=([1], [0]))\n        Cs = np.diagonal(np.tensordot(Fts, Fts, axes=([1], [1])), axis1=0, axis2=2).transpose(2, 0, 1)")],
    '''
import numpy as np
from structrans.marttrans.lat_cor.dist import Cauchy_dist, Cauchy_dist_vec
rng = np.random.RandomState(1)
E1 = np.array([[1., .3, 0], [0, 1.1, .2], [.1, 0, 1.2]])
E2i = np.linalg.inv(np.array([[1., .1, 0], [.2, 1.1, 0], [0, .1, .9]]))
xs = rng.randint(-2, 3, (120, 9))
assert np.allclose(Cauchy_dist_vec(xs, E1, E2i), [Cauchy_dist(x, E1, E2i) for x in xs])
''', 'batches of at least 100 correspondences and a base that is not symmetric', 'the batch distance uses the transposed base')

plant('euler-lower', 'C13', [
    ('structrans/util/utils.py', "            R = canonical_rotation[a.upper()](angle).dot(R)\n", "            R = canonical_rotation[a.upper()](angle).dot(R) if a.isupper() else R.dot(canonical_rotation[a.upper()](angle))\n")],
    '''
import numpy as np
from structrans.util import Euler
assert np.allclose(Euler([10, 20, 30], 'zxz'), Euler([10, 20, 30], 'ZXZ'))
''', 'axes given in lower case', 'lower case axes are applied in the opposite order')
