"""Writes properties.jsonl and MANIFEST.json from the table below and the props modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
X = 'structrans/crystallography/'
M = 'structrans/marttrans/'
L = 'structrans/marttrans/lat_cor/'

P = []


def prop(id, title, statement, quant, tests, files, mech, over=('inputs',), na=None):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, tests=tests, files=files,
                  mech=mech, over=list(over), na=na))


prop('C01', 'Hermite normal form enumeration is complete, distinct and correct',
     'For a determinant n and a dimension N, the enumeration of Hermite normal forms delivers exactly the N x N lower triangular '
     'integer matrices of determinant n with positive diagonal whose off-diagonal entries h satisfy -d < h <= 0 for the diagonal entry d of the row. '
     'Each is delivered exactly once, so every sublattice of index n is represented exactly once.',
     'every integer matrix satisfying the defining inequalities (symbolic), for each determinant and dimension within the bounds',
     'The tests count the forms for a few determinants; they never ask whether an arbitrary form is in the list.',
     [X + 'hnf.py', X + 'sublattice.py', 'structrans/util/utils.py'],
     [('hnf_from_det', X + 'hnf.py'), ('hnf_from_diag', X + 'hnf.py'), ('divisors', 'structrans/util/utils.py')])

prop('C02', 'Hermite normal form decomposition reproduces the input and is canonical',
     'The decomposition of a full-rank square integer matrix M returns integer matrices H and L with M = H L, |det L| = 1 and H in Hermite '
     'normal form (lower triangular, positive diagonal d, entries h left of it with -d < h <= 0). '
     'Two matrices whose columns span the same sublattice have the same H, asking for H alone gives the same H, and the input is not modified.',
     'every full-rank integer matrix with entries in the bounds; every unimodular change of base in the bounds',
     'The tests decompose a handful of random matrices; the loops take different numbers of turns for nearly every input.',
     [X + 'hnf.py'], [('hnfd', X + 'hnf.py')])

prop('C03', 'Divisors of an integer',
     'The divisors of a positive integer n are reported completely, without repetition and in increasing order.',
     'every candidate divisor (symbolic) for every n in the bounds',
     'The tests check a few n; perfect squares and primes take different paths.',
     ['structrans/util/utils.py'], [('divisors', 'structrans/util/utils.py')])

prop('C04', 'A Bravais lattice has the requested conventional cell',
     'For each of the 14 three dimensional and 5 two dimensional Bravais lattice types and any admissible parameters, the conventional cell '
     'has exactly the requested edge lengths and angles, and is right-handed, with the three-fold axis of trigonal cells along [111]. The type, the parameters and the dimension are reported as given.',
     'all lattice types, all real lengths and angles in the bounds',
     'Tests compare a few bases with fixed parameters; an error in one entry for another type or for other angles goes unnoticed.',
     [X + 'bravais_lattice.py'],
     [('primitive bases', X + 'bravais_lattice.py'), ('conventional transformation', X + 'bravais_lattice.py')])

prop('C05', 'Primitive and conventional cells and their indices',
     'The primitive cell spans the conventional cell by integer combinations, has its volume divided by the number of lattice points of the centring, and the centring points of the type '
     '(and no others) are lattice points. Converting direction indices between the conventional and the primitive cell keeps the vector in space, and the two conversions are inverse to each other. A list of indices is converted member by member, for every Bravais lattice type.',
     'all lattice types, all real parameters and indices in the bounds, lists of one to three indices',
     'The tests do not convert indices back and forth; transposition errors are invisible for symmetric centring matrices.',
     [X + 'bravais_lattice.py'], [('to_primitive, to_conventional', X + 'bravais_lattice.py')])

prop('C06', 'Lattice construction refuses invalid input and accepts all valid input',
     'Constructing a Bravais lattice with an unknown type number, too few or too many parameters, a nested list or a non-positive parameter, or a '
     'lattice from a non-square or singular base, raises a ValueError. Every valid input is accepted, as a list or an array, and a '
     'lattice reports the given base and its dimension.',
     'all type numbers, parameter counts and real parameter values in the bounds; all real bases in the bounds',
     'Tests try single wrong inputs; they cannot show that no invalid value slips through and no valid one is refused.',
     [X + 'bravais_lattice.py', X + 'lattice.py'],
     [('Lattice.__init__', X + 'lattice.py'), ('BravaisLattice.__init__', X + 'bravais_lattice.py')])

prop('C07', 'Two lattices are equal exactly when they are the same set of points',
     'Two lattices compare equal exactly when their bases are related by an integer matrix of determinant plus or minus one. '
     'Proper sublattices, superlattices, other lattices and lattices of another dimension are unequal; the relation does not depend on the '
     'order of the operands.',
     'all real bases and all integer changes of base in the bounds',
     'The tests compare a few pairs; whether inequality is detected depends on the direction of the comparison and the index.',
     [X + 'lattice.py'], [('Lattice.__eq__', X + 'lattice.py')])

prop('C08', 'Membership in the point group and in the lattice group is exact',
     'A matrix is accepted as a point group element only if it is orthogonal and maps the lattice to itself, and every symmetry of the lattice '
     'is accepted whatever base describes it. An integer matrix is accepted as a lattice group element exactly if it is '
     'realised by an orthogonal transformation of the lattice; matrices of the wrong shape and matrices that are not '
     'orthogonal, not integral or not isometric are refused.',
     'all real plane lattices and prisms of them, all rotation angles and all integer matrices in the bounds',
     'Tests try selected matrices on selected lattices.',
     [X + 'lattice.py'], [('inpointgroup', X + 'lattice.py'), ('inlatticegroup', X + 'lattice.py')])

prop('C09', 'The symmetry groups of a Bravais lattice are its full symmetry groups',
     'The point group, the Laue group, the lattice group and the special lattice group of a Bravais lattice with generic parameters are '
     'exactly the groups of its crystal system, each element mapping the lattice to itself; shapes with accidental higher symmetry get the higher group. '
     'The point and lattice groups correspond one to one, and the groups of the same lattice given by another base are the same rotations.',
     'all lattice types, all real axial ratios and scales in the bounds',
     'Tests count the elements for a few parameter sets; tolerances make the outcome depend on the actual parameters.',
     [X + 'lattice.py', X + 'matrix_group.py'],
     [('point_group, lattice_group, Laue_group', X + 'lattice.py'), ('library groups', X + 'matrix_group.py')])

prop('C10', 'The library of matrix groups consists of groups, and subgroup tests are exact',
     'Each predefined matrix group has the identity, is closed under products and inverses, has the stated order and no repeated element, and the '
     'Laue groups contain only rotations. The subgroup test says yes exactly when every element of the one group is an element of the other, '
     'also when the groups are conjugated by a rotation. Changing returned matrices does not change a group.',
     'every pair of elements of all predefined groups; all rotation angles for conjugated groups',
     'Tests check the orders; a wrong sign in one of 48 matrices passes.',
     [X + 'matrix_group.py'], [('MatrixGroup, Laue groups', X + 'matrix_group.py')])

prop('C11', 'Lattice reduction returns a reduced base of the same lattice',
     'The reduced base spans the same lattice as the input. It is size-reduced and satisfies the exchange '
     'condition with factor 3/4 and keeps the orientation; the input is not modified. '
     'The orthogonalisation used returns orthogonal vectors and the unit triangular coefficients that reproduce the input.',
     'all real lattices within the shear and ratio boxes of the bounds, through all iterations',
     'Tests reduce a few integer bases; the iteration count and the branch of each step depend on the input.',
     [X + 'lattice_reduction.py'], [('LLL, _gram_schmidt', X + 'lattice_reduction.py')])

prop('C12', 'Distances between lattices',
     'For lattice bases E1, E2 and a correspondence L, with G = E1 L E2^-1, the Cauchy distance is |G G^T - I|^2, the Ericksen distance is '
     '|L^T E1^T E1 L - E2^T E2|^2 / |E2^T E2|^2, and the strain distance is the sum of (s - 1)^2 over the singular values s of G; each is '
     'zero for an undistorted transformation. The distance of a batch of correspondences is the list of the distances of its members, and '
     'crystallographically equivalent correspondences have the same distance.',
     'all real bases and integer correspondences in the bounds, all batch sizes listed',
     'Tests evaluate single correspondences; the batch code path for large batches is not compared with the single one.',
     [L + 'dist.py', L + 'main_direct.py'],
     [('Cauchy_dist, Ericksen_dist, strain_dist', L + 'dist.py'), ('Cauchy_dist_vec', L + 'dist.py')])

prop('C13', 'Rotation, screw and Euler matrices have the requested action',
     'The rotation matrix about an axis by an angle is the proper rotation which fixes the axis and turns by the angle in the right-handed sense, in '
     'degrees or radians as requested. Euler angles give the elementary rotations applied one after the other in the requested order about fixed axes; '
     'a screw of order n along a lattice vector turns by 360/n degrees about it and translates by p/n of it, up to whole lattice vectors.',
     'all real angles and axes in the bounds, all axis sequences',
     'Tests evaluate single angles, often multiples of 90 degrees.',
     ['structrans/crystallography/spacegroup.py', 'structrans/util/utils.py'],
     [('rotation, Euler', 'structrans/util/utils.py'), ('skew', X + 'spacegroup.py')])

prop('C14', 'Rank-one connections of a stretch to the identity',
     'For a symmetric positive definite C whose middle eigenvalue is 1, the two solutions (b, m) of C = (I + m b)(I + b m) that are returned satisfy it '
     'with a unit normal m, and the rotation returned with an austenite/martensite interface satisfies R sqrt(C) = I + b m. A sorted eigensystem has increasing eigenvalues with '
     'their unit eigenvectors, in whatever order the solver finds them. Asymmetric, indefinite or wrongly shaped tensors are refused.',
     'all real eigenvalues in the bounds, any order and sign in which the eigensolver returns the eigenpairs',
     'Tests use one material; the order of eigenpairs from the solver is not under the control of a test.',
     [M + 'twin.py', 'structrans/util/utils.py'],
     [('_solve_am', M + 'twin.py'), ('solve_rank1, sort_eig, pos_def_sym', 'structrans/util/utils.py')])

prop('C15', 'The enumeration of integer vectors in a ball is complete and can be resumed',
     'The generator delivers every integer vector of the given dimension inside the ball of the given radius exactly once and none outside. '
     'Resumed at a given vector with the same or a smaller radius, it delivers exactly the vectors of the smaller ball from that vector on, in the same order.',
     'all real radii and all dimensions in the bounds, all resumption points',
     'Tests count the vectors for a few radii and never resume.',
     [L + 'main_direct.py', 'structrans/util/utils.py'], [('vec_generator', 'structrans/util/utils.py')],
     over=('inputs', 'histories'))

prop('C16', 'The direct search returns the best inequivalent correspondences in order',
     'The direct search returns the requested number of correspondences with the smallest distances of all those offered by the random start and by the '
     'enumeration of the search ball, sorted by distance, one per class of crystallographically equivalent ones. This does not depend on the order of the offers, on '
     'the slice size, or on ties; the reported distances and strains belong to the returned correspondences.',
     'every assignment of real distances to the offered classes, every listed order and slicing of the offers',
     'Tests run one transformation with a fixed slice size; the orders in which candidates can arrive are not sampled.',
     [L + 'main_direct.py'], [('lat_cor', L + 'main_direct.py')], over=('inputs', 'histories'))

prop('C17', 'The sublattice search returns the best correspondences of all sublattices',
     'The sublattice search (lat_cor_hnf) examines, up to equivalence under the parent, exactly the sublattices whose index is within the volume threshold of the volume ratio (the nearest index if there is none), each once. '
     'Of all solutions found for them it returns as many as wanted of the smallest distances (more only for ties, all if there are fewer), sorted, one per class of equivalent correspondences, '
     'whether the sublattices are searched one after the other or by parallel tasks that finish in any order, of which never more run than workers were asked for. The reported '
     'correspondence, stretch and sorted principal stretches belong to the solution and correspondences preserve the orientation.',
     'every assignment of real distances to the solutions of the sublattices, every order in which tasks finish, all volume ratios, thresholds and lattice parameters in the bounds',
     'The tests run one transformation serially; the arrival orders and ties are never exercised.',
     [L + 'main_hnf.py'], [('lat_cor', L + 'main_hnf.py')], over=('inputs', 'schedules'))

prop('C18', 'The lattice invariant shear search keeps the best inequivalent matrices in reach',
     'The shear optimisation returns unimodular integer matrices with their distances (Cauchy, Ericksen or strain), sorted, one per class of equivalent ones under the rotations of the two lattices, as many as wanted '
     '(more only for ties, fewer only if no more are in reach). The best is at least as close as all its neighbours by one elementary shear; no matrix that up to the minimum depth of elementary shears connect to the best is closer '
     'than the last one kept unless an equivalent one is returned. Every product of that many elementary shears is within reach. The given bases are not modified.',
     'every assignment of real distances to the correspondences in the bounds, all real lattice parameters in the boxes, every product of shears',
     'The tests look at the best solution of a few transformations; a branch of the tree that is cut wrongly only loses solutions.',
     [L + 'lat_opt.py', L + 'slnode.py', L + 'dfs.py', L + 'dist.py'], [('lat_opt', L + 'lat_opt.py'), ('SLNode', L + 'slnode.py'), ('dfs', L + 'dfs.py')],
     over=('inputs', 'histories'))

prop('C19', 'Martensite variants are the orbit of the stretch under the parent group',
     'The variants of a reversible transformation are exactly the distinct tensors Q U Q^T over the operations Q of the parent Laue group, the first '
     'being U, and the reported operation indices assign every parent operation to the variant it leads to. A transformation whose stretch has a symmetry that the '
     'parent lacks is reported as irreversible and has no variants. Setting another stretch or parent group gives a new object and leaves the old one as it was.',
     'all real stretch tensors of the symmetry families in the bounds, all parent lattice types, sequences of settings',
     'Tests count the variants of a few numeric stretches.',
     [M + 'martensite.py', X + 'lattice.py', X + 'matrix_group.py'],
     [('Martensite.calcvariants, isreversible', M + 'martensite.py')], over=('inputs', 'histories'))

prop('C20', 'Twins of variants related by a two-fold rotation satisfy the twinning equation',
     'A pair of different variants that a two-fold rotation relates is twinnable; its two solutions (Q, a, n) satisfy Q U_j = U_i + a n^T with Q a rotation and n a unit vector. '
     'The reported axes are exactly the axes of the two-fold rotations that map U_i to U_j: one for a Type I/II pair, where the Type I normal is the axis, '
     'the Type II shear is along U_i e and X_I = |U_i^-1 e|, X_II = |U_i e|; two for a compound pair. A pair is conventional exactly if a two-fold rotation of the given group '
     '(by default the cubic one) relates the variants, whatever was asked before. Identical variants and variants without a rank-one connection are not twinnable and have no twin elements. '
     'A twin system lists all twinnable pairs of its variants, each once and in order, and classifies each of them as above with the Laue group of the parent.',
     'all real stretches of the symmetry families in the bounds, all two-fold axes of the parent, all orders and signs in which the eigen-solver can return the eigenvectors',
     'Tests use a handful of numeric stretches; signs and order of eigenvectors, axis directions and parent groups are not varied.',
     [M + 'twin.py', M + 'martensite.py'], [('TwinPair.ax, twinparam, isconventional', M + 'twin.py'), ('TwinSystem.TwinTable', M + 'twin.py')],
     over=('inputs', 'histories'))

prop('C21', 'Volume fractions and habit planes make the twin fit the undeformed phase',
     'For each of the two solutions of a twin the reported volume fraction f is in [0, 1] and makes 1 the middle eigenvalue of (U + f a n^T)^T (U + f a n^T); None is reported only if '
     'no volume fraction does. The twin is compatible exactly if one of its solutions has a volume fraction. Each volume fraction f has two habit planes for f and two for 1 - f; '
     'each habit plane (R, b, m) has a rotation R and a unit normal m, and I + b m^T has the same stretch as the average deformation. '
     'The reported cofactor condition is the derivative of det(C_f - I) up to the factor -1/2.',
     'all real stretches of the families in the bounds, below, inside and above the range in which the twin is compatible',
     'Tests use one compatible material; that no volume fraction is missed, and none reported where 1 is an eigenvalue but not in the middle, needs all values of the lattice parameters.',
     [M + 'twin.py'], [('_solve_f, volumefrac, habitplanes', M + 'twin.py'), ('_solve_am', M + 'twin.py')])

prop('C22', 'Directions and planes under a lattice correspondence',
     'The direction of the final phase that corresponds to a direction n of the initial phase under the correspondence L is the n\' with L n\' = n, and planes p '
     'transform with the transpose, p\' = L^T p, so that the product of plane and direction indices is preserved. '
     'A list of indices is converted member by member, in the order given.',
     'all real correspondence matrices and indices in the bounds, two and three dimensions, single indices and lists',
     'Tests convert single indices with a few matrices, many of them symmetric, where transposition errors are invisible.',
     [M + 'orientation_relationship.py'], [('direc_trans, plane_trans', M + 'orientation_relationship.py')])

prop('C23', 'Rank-one compatibility of two deformations',
     'Two deformation gradients A and B are reported as compatible exactly when the middle principal stretch of A B^-1 is 1. The interface solver returns for a compatible '
     'symmetric positive definite C the two rank-one connections to the identity, and nothing when the middle eigenvalue of C is not 1; asymmetric input is refused.',
     'all real principal stretches, rotations and reference deformations in the bounds, eigenpairs delivered in any order',
     'Tests use one material; the order of the eigenvalues and the repeated eigenvalues at the border of compatibility are not sampled.',
     [M + 'Compatibility.py', M + 'twin.py'], [('isCompatible, AM_Solver', M + 'Compatibility.py')])

prop('C24', 'Batch matrix operations agree with the matrix operations of the members',
     'For lists of square matrices, the batch products, traces, determinants, transposes and eigenvalues are those of the members, in their order, and the input is not modified. '
     'The cofactor matrix K of A consists of the signed minors, so A K^T = det(A) I. The integer triples of a range are all the triples of integers in the range, each once.',
     'all real or integer matrices in the bounds, dimensions one to four, lists of one to three members',
     'Tests do not call these operations with several members or in other dimensions.',
     ['structrans/mat_math.py', M + 'twin.py'],
     [('mat_dot, mat_trace, mat_det, mat_T, mat_eig, cofactor', 'structrans/mat_math.py'), ('_brute_cof', M + 'twin.py')])

prop('C25', 'Unit cells have the corners and edges of the cell',
     'The vertices of a unit cell with a given origin are the origin plus all partial sums of the cell vectors, each once, and the bonds are all the edges of the cell, each once. '
     'The primitive cell drawn for a lattice is spanned by its base; the origin and the cell vectors are reported as given and changing returned arrays does not change the cell.',
     'all real origins and cell vectors in the bounds, two and three dimensions, all Bravais lattice types',
     'Tests do not draw cells.',
     [X + 'visualization.py'], [('UnitCell', X + 'visualization.py')])

prop('C28', 'A transformation accepts exactly the symmetric positive definite stretches',
     'Setting the stretch of a transformation accepts a matrix exactly if it is a 3 x 3 symmetric positive definite matrix, and stores it as given; one to four numbers give the '
     'tetragonal, orthorhombic and monoclinic stretches of these entries. Everything else is refused with an error, also by twin pairs and '
     'microstructures, which report the Laue group and the stretch that were set.',
     'all real 3 x 3 matrices in the bounds, all number forms, sequences of settings',
     'Tests try a few wrong inputs; an indefinite matrix with positive determinant, or a matrix asymmetric in one entry, was accepted or not by accident.',
     [M + 'martensite.py', M + 'twin.py', 'structrans/util/utils.py'],
     [('Martensite.setU, setLaue', M + 'martensite.py'), ('pos_def_sym', 'structrans/util/utils.py')], over=('inputs', 'histories'))

prop('C29', 'Sublattices are reduced to one representative per orbit',
     'Reducing a list of Hermite normal forms by a lattice group delivers members of the list such that every form of the list spans a sublattice that some operation of the group maps to that of exactly one delivered form. '
     'This holds for complete and partial lists in any order, with repetitions and with mixed determinants, and reducing the parts of a list before the whole changes nothing.',
     'every form (symbolic integer matrix) of the determinants in the bounds, every distribution of the forms over two parts',
     'The tests never reduce sublattices by symmetry directly; a lost orbit only loses solutions.',
     [L + 'main_hnf.py', X + 'hnf.py'], [('reduce_hnfs', L + 'main_hnf.py')])

prop('C26', 'Stereographic projection places every direction correctly',
     'The stereographic projection of a direction along a zone axis lies at the distance |z| tan(theta / 2) from the centre, directions below the equator are projected like their mirror image, '
     'and distances, angles and handedness of the figure are those seen from the tip of the zone axis, whatever the zone axis. '
     'A pole figure consists of the projections of its directions in order, the zone axis is in the centre, and anything but triplets is refused.',
     'all zone axes and all pairs of directions in the bounds',
     'No test calls the projection; a mirrored or distorted figure looks plausible.',
     [X + 'stereogram.py'], [('stereo_proj, pole_figure', X + 'stereogram.py')])

prop('C27', 'The search ball of the direct search contains every better correspondence',
     'The quartic form whose minimum bounds the search is the squared norm of the deformation tensor of a correspondence, and every radius used for the enumeration is so large that, '
     'given a lower bound of that form on the unit sphere, no correspondence outside of the ball is closer than the worst solution kept.',
     'all real lattice parameters, correspondences, lower bounds and distances in the bounds',
     'A too small ball only shows for lattices where a good correspondence has large entries.',
     [L + 'main_direct.py', L + 'quartic_opt.py'], [('lat_cor, quart_min', L + 'main_direct.py')])

prop('C30', 'Objects keep their values',
     'Lattices, Bravais lattices, matrix groups, transformations, twin systems and twin pairs answer every question the same no matter whether the arrays and lists they were built from, '
     'or the arrays and lists they returned before, are changed afterwards. The library groups cannot be changed through their elements, and setting the stretch or the '
     'group of a transformation makes a new object and leaves the old one as it was.',
     'all values of the objects in the bounds, every choice of one input or returned value that is changed completely, before or after the answers were asked for first',
     'Tests use objects once; an aliased array shows only in programs that reuse their arrays.',
     [X + 'lattice.py', X + 'bravais_lattice.py', X + 'matrix_group.py', M + 'martensite.py', M + 'twin.py'],
     [('Lattice', X + 'lattice.py'), ('BravaisLattice', X + 'bravais_lattice.py'), ('MatrixGroup', X + 'matrix_group.py'), ('Martensite', M + 'martensite.py'),
      ('TwinSystem, TwinPair', M + 'twin.py')])

prop('C32', 'Descriptions show the values of the objects',
     'The description of a Bravais lattice names its type and dimension and lists every lattice parameter once under its own name with its value; the description of a lattice lists the '
     'columns of its base. The printed report of a search lists the returned solutions in order, each with its correspondence, stretch, Hermite normal form, strains and distance.',
     'all lattice parameters, bases, cell lengths and distances in the bounds',
     'Tests do not read descriptions; a swapped parameter or a transposed matrix misleads the reader of the results.',
     [X + 'bravais_lattice.py', X + 'lattice.py', L + 'main_hnf.py'],
     [('BravaisLattice.__str__', X + 'bravais_lattice.py'), ('Lattice.__str__', X + 'lattice.py'), ('lat_cor, _sols_tostr', L + 'main_hnf.py')])

NA = [('C31', 'The minimum of the quartic form is the global minimum',
       'The lower bound on the unit sphere used for the size of the search ball is the global minimum of the quartic form.',
       'all quartic forms of lattice pairs',
       [L + 'quartic_opt.py'], [('quart_min', L + 'quartic_opt.py')],
       'iterative floating point minimisation from random starting points until a tolerance is met: a symbolic execution has no bounded '
       'unrolling, and the claim is about convergence of a heuristic, not about a bounded computation')]


def main():
    checks, na, lines = [], [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py')) and not p['na']
        lines.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                          why_tests_cant=p['tests'],
                          anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])))
        if have:
            mod = importlib.import_module('props.' + p['id'])
            checks.append(dict(
                property=p['id'],
                quick_cmd='python3-vt run.py %s --tier quick' % p['id'],
                thorough_cmd='python3-vt run.py %s --tier thorough' % p['id'],
                technique='symbolic execution of the real Python functions, assertions decided by z3',
                level='other',
                level_note=('Bounded: holds for all values within: ' + mod.BOUNDS + '. Outside: ' + mod.OUTSIDE +
                            '. Reals stand for floats (rounding is not modelled); trusts the numpy model and z3; '
                            'counterexamples and samples of every case are replayed on the real code.')))
        else:
            na.append(dict(property=p['id'], reason=p['na']))
    for id, title, st, q, files, mech, reason in NA:
        lines.append(dict(id=id, title=title, statement=st, quantifier=dict(over=['inputs'], text=q),
                          why_tests_cant='Tests evaluate single forms.',
                          anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
        na.append(dict(property=id, reason=reason))
    lines.sort(key=lambda l: l['id'])
    checks.sort(key=lambda l: l['property'])
    for l in lines:
        assert len(l['title']) <= 80, l['title']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for l in lines:
            f.write(json.dumps(l) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='mkdir -p evidence replays && python3-vt -m compileall -q engine props',
                       checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
