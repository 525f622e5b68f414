"""Rewrites the sections "Properties" and "Planted bugs" of DESIGN.md from the props modules, the table below and seeded/*/meta.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HOW = {
    'C01': 'a symbolic integer matrix is assumed to satisfy the defining inequalities; the solver looks for one that is not in the list the code delivers; the delivered ones are checked one by one and pairwise',
    'C02': 'symbolic integer entries run through the real elimination loops; M = H L, |det L| = 1 and the form of H are asserted on every path; uniqueness by decomposing M W for symbolic unimodular W',
    'C03': 'symbolic candidate divisor against the delivered list',
    'C04': 'the Gram matrix of the conventional cell against lengths and cosines of the symbolic parameters',
    'C05': 'index conversion against the real position in space; centring points against an independent table of the International Tables',
    'C06': 'acceptance of the constructor against an independent admissibility predicate over symbolic parameters',
    'C07': 'symbolic base and change of base; the verdict of == against the integrality and determinant of the change of base',
    'C08': 'symbolic plane lattices, symbolic integer matrices and rotation angles; the verdict against orthogonality / isometry written as polynomials',
    'C09': 'groups of a lattice with symbolic axial ratios against holohedries written out independently',
    'C10': 'group axioms of the library; subgroup tests of conjugates by a symbolic rotation',
    'C11': 'all iterations of the reduction of a symbolic base; integrality of the change of base, size reduction and exchange condition asserted on every path',
    'C12': 'distances against their formulas, written as polynomials in symbolic bases and correspondences',
    'C13': 'rotations against Rodrigues / elementary rotations with symbolic sines and cosines',
    'C14': 'the eigensolver is a stub that returns the registered eigenpairs in any order and sign; the returned (b, m) are put into the equation',
    'C15': 'the radius is symbolic; on every path the delivered vectors against the integer vectors of the ball; resumption at every vector',
    'C16': 'distances of classes of correspondences are symbolic reals; the returned list against the sorted minimum over classes on every path',
    'C17': 'sublattice solutions get symbolic distances, the process pool is a stub whose tasks get ready in a symbolic order; the returned list against the best of all; sublattice sizes against the definition for a symbolic '
           'volume ratio and threshold; complete searches with real distances of one-parameter families against competitors',
    'C18': 'distance is an uninterpreted function (symbolic real per class) or the real Cauchy/Ericksen distance of a symbolic lattice; the returned list against all matrices within the depth; reach by a symbolic product of shears',
    'C19': 'symbolic stretches of known symmetry; variants against the orbit under an independently written group',
    'C20': 'symbolic variants related by a two-fold axis; the twinning equation, axes and norms asserted on the returned elements',
    'C21': 'volume fractions against the middle eigenvalue of the average deformation (polynomial identity det(C_f - I) = 0 and position of the root); habit planes put into their equation, eigen-solver as an arbitrary function',
    'C22': 'round trip through the correspondence, invariance of the product of indices',
    'C23': 'deformations built with a known symbolic middle stretch; verdict against it',
    'C24': 'batch results against the textbook formulas of the members',
    'C25': 'vertices and bonds against subset sums of the symbolic cell vectors',
    'C26': 'radius against tan(theta/2) and scalar/triple products against those in space, directions parametrised so that the relation is polynomial',
    'C27': 'quartic form against the squared norm of the tensor; the radius passed to the enumeration against the bound that follows from a symbolic alpha',
    'C28': 'acceptance against Sylvester\'s criterion and symmetry in symbolic entries',
    'C29': 'a symbolic Hermite normal form: some operation maps it to exactly one delivered form (membership of a sublattice by integrality of adj(H) M / det)',
    'C30': 'two objects of the same symbolic values; after the arrays of one are overwritten recursively all answers have to be equal',
    'C32': 'text formatting of a symbolic number prints a token; the description is parsed and tokens are traced back to the terms they stand for',
}


def props():
    out = []
    meta = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}
    for i in sorted(meta):
        p = meta[i]
        if not os.path.exists(os.path.join(HERE, 'props', i + '.py')):
            out.append('* **%s** %s: not applicable, see MANIFEST.json.' % (i, p['title']))
            continue
        m = importlib.import_module('props.' + i)
        q = len([c for c in m.CASES if c[3].get('tier') != 'thorough'])
        t = len(m.CASES)
        n = '%d' % q if q == t else '%d (thorough %d)' % (q, t)
        out.append('* **%s** %s. How: %s. %sBounds: %s. Outside: %s.' % (i, p['title'], HOW[i], 'Cases: %s. ' % n, m.BOUNDS, m.OUTSIDE))
    return out


def planted():
    d = {}
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        d.setdefault(m['property'], []).append(i)
    return ['| %s | %s |' % (k, ', '.join(d[k])) for k in sorted(d)]


def section(text, name, lines):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + '\n'.join(lines) + '\n' + text[j:]


p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read()
t = section(t, 'properties', props())
t = section(t, 'planted', ['| property | planted bugs, all caught by the quick check of the property |', '|---|---|'] + planted())
open(p, 'w').write(t)
