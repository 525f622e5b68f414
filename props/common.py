"""Shared reference data (independent of the repository)."""

# Bravais types: number of parameters, multiplicity of the conventional cell
NPARAM3 = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6]
NPARAM2 = [1, 2, 2, 1, 3]
MULT3 = [1, 4, 2, 1, 1, 1, 2, 1, 2, 4, 2, 1, 2, 1]
MULT2 = [1, 1, 2, 1, 1]
# centring vectors in conventional coordinates (times 2)
F_CENT = [(0, 1, 1), (1, 0, 1), (1, 1, 0)]
I_CENT = [(1, 1, 1)]
C_CENT = [(1, 1, 0)]
CENT3 = {2: F_CENT, 3: I_CENT, 7: I_CENT, 9: C_CENT, 10: F_CENT, 11: I_CENT, 13: C_CENT}
CENT2 = {3: [(1, 1)]}


def det2(M):
    return M[0][0] * M[1][1] - M[0][1] * M[1][0]


def det3(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
            - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
            + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return det2(M) if n == 2 else det3(M)


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def gram(A):
    return mul(tr(A), A)


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def cubic24():
    """rotations of the cube, generated from signed permutations"""
    import itertools
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            M = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
            if det3(M) == 1:
                out.append(M)
    return out


def signed_perms2():
    return [[[s, 0], [0, t]] for s in (1, -1) for t in (1, -1)] + [[[0, s], [t, 0]] for s in (1, -1) for t in (1, -1)]


def hex12(np):
    """rotations of the hexagonal prism about z with a two-fold axis along x"""
    h = np.sqrt(3) / 2
    cs = [(1, 0), (0.5, h), (-0.5, h), (-1, 0), (-0.5, -h), (0.5, -h)]
    out = []
    for x, y in cs:
        out.append([[x, -y, 0], [y, x, 0], [0, 0, 1]])
        out.append([[x, y, 0], [y, -x, 0], [0, 0, -1]])
    return out


def hex2d(np):
    h = np.sqrt(3) / 2
    cs = [(1, 0), (0.5, h), (-0.5, h), (-1, 0), (-0.5, -h), (0.5, -h)]
    rot = [[[x, -y], [y, x]] for x, y in cs]
    ref = [[[x, y], [y, -x]] for x, y in cs]
    return rot, ref


def holohedry3(np, ID):
    """expected rotations of the 14 types"""
    c = cubic24()
    if ID in (1, 2, 3):
        return c
    if ID == 4:
        return hex12(np)
    if ID == 5:
        # three-fold axis [111]: permutation matrices times +-1 with det 1
        return [M for M in c if len(set(sum(r) for r in M)) == 1]
    if ID in (6, 7):
        return [M for M in c if abs(M[2][2]) == 1]
    if ID in (8, 9, 10, 11):
        return [M for M in c if M[0][1] == M[0][2] == M[1][2] == 0 and M[1][0] == 0]
    if ID in (12, 13):
        return [eye(3), [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]]
    return [eye(3)]


def holohedry2(np, ID):
    """(rotations, all) expected in the plane"""
    sp = signed_perms2()
    if ID == 1:
        return [M for M in sp if det2(M) == 1], sp
    if ID in (2, 3):
        return [eye(2), [[-1, 0], [0, -1]]], [M for M in sp if M[0][1] == 0]
    if ID == 4:
        r, m = hex2d(np)
        return r, r + m
    i = [eye(2), [[-1, 0], [0, -1]]]
    return i, i


def same_set(c, A, B, tol=1e-6):
    """the lists of matrices A and B are equal as sets without repetition (formula)"""
    if len(A) != len(B):
        return False
    conds = []
    for b in B:
        conds.append(c.Or(*[c.close(a, b, tol) for a in A]))
    for i in range(len(A)):
        for j in range(i):
            conds.append(c.Not(c.close(A[i], A[j], tol)))
    return c.And(*conds)


def params3(c, ID, generic=False, lo=0.5, hi=50):
    """symbolic lattice parameters of a 3D type; angles in degrees"""
    n = NPARAM3[ID - 1]
    if ID in (12, 13):
        p = [c.real('p%d' % i, lo, hi) for i in range(3)] + [c.real('beta', 5, 175)]
    elif ID == 14:
        p = [c.real('p%d' % i, lo, hi) for i in range(3)] + [c.real(x, 20, 160) for x in ('alpha', 'beta', 'gamma')]
    elif ID == 5:
        p = [c.real('p0', lo, hi), c.real('alpha', 5, 115)]
    else:
        p = [c.real('p%d' % i, lo, hi) for i in range(n)]
    return p


def cosd(c, x):
    return c.np.cos(x * c.np.pi / 180)


def valid_triclinic(c, p):
    ca, cb, cg = cosd(c, p[3]), cosd(c, p[4]), cosd(c, p[5])
    return 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg >= 0.02
