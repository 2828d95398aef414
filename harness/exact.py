"""Exact Gaussian-rational linear algebra, used to produce certificates which the specification verifies."""
from fractions import Fraction as Q


class G:
    __slots__ = ('a', 'b')

    def __init__(self, a, b=0):
        self.a, self.b = Q(a), Q(b)

    def __add__(s, o): return G(s.a + o.a, s.b + o.b)
    def __sub__(s, o): return G(s.a - o.a, s.b - o.b)
    def __mul__(s, o): return G(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    def inv(s):
        n = s.a * s.a + s.b * s.b
        return G(s.a / n, -s.b / n)
    def zero(s): return s.a == 0 and s.b == 0


def nullspace(rows, n):
    """Integer vectors k (as [[re, im], ...]) spanning {k : row . k = 0 for all rows}; rows of complex numbers with
    dyadic parts."""
    M = [[G(Q(complex(x).real), Q(complex(x).imag)) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if not M[i][c].zero()), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        v = M[r][c].inv()
        M[r] = [x * v for x in M[r]]
        for i in range(len(M)):
            if i != r and not M[i][c].zero():
                f = M[i][c]
                M[i] = [x - f * y for (x, y) in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    out = []
    import math
    for c in range(n):
        if c in piv:
            continue
        k = [G(0) for _ in range(n)]
        k[c] = G(1)
        for (i, p) in enumerate(piv):
            k[p] = G(0) - M[i][c]
        d = 1
        for x in k:
            d = math.lcm(d, x.a.denominator, x.b.denominator)
        out.append([[int(x.a * d), int(x.b * d)] for x in k])
    return out


def big(rows):
    return max([0] + [abs(p) for r in rows for x in r for p in x])


# ---------------------------------------------------------------- dense representation, for screening inputs only
import numpy as np
_P = {'': np.eye(2), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.array([[1, 0], [0, -1]]), 'D': np.array([[1, 0], [0, -1]])}


def dense_string(s, labels):
    """Matrix of a Pauli or Majorana string up to its overall sign on the given sorted labels (few)."""
    n = len(labels)
    M = np.eye(2 ** n, dtype=complex)
    for (o, l) in zip(map(str, s.orbital_operators), map(int, s.orbital_labels)):
        k = labels.index(l)
        f = ['Z' if j < k and o in ('A', 'B') else o if j == k else '' for j in range(n)]
        F = np.eye(1)
        for x in f:
            F = np.kron(F, _P[{'A': 'X', 'B': 'Y'}.get(x, x)])
        M = M @ F
    return M * s.prefactor


def dense_op(op, labels):
    return sum((complex(c) * dense_string(s, labels) for (c, s) in op), np.zeros((2 ** len(labels),) * 2, dtype=complex))


def well_posed(space, syms, labels, lo=1e-6, hi=1e5):
    """Whether the joint (anti)commutation problems with the operators syms = [(O, mode)] separate their null vectors
    clearly (the code decides by an absolute tolerance of 1e-10 on squared singular values)."""
    B = [dense_op(o, labels) for o in space]
    for (O, mode) in syms:
        if not B:
            return True
        O = dense_op(O, labels)
        s = 1 if mode == 'anticommutator' else -1
        L = np.array([(b @ O + s * O @ b).reshape(-1) for b in B]).T / 2 ** (len(labels) / 2)
        u, sv, vh = np.linalg.svd(L, full_matrices=True)
        sv = np.concatenate([sv, np.zeros(len(B) - len(sv))]) if len(sv) < len(B) else sv
        q = sv ** 2
        zero = 1e-20 * max(1, q.max())
        if q.max() > hi or any(zero < x < lo for x in q):
            return False
        null = [i for i in range(len(B)) if q[i] <= zero]
        V = vh.conj().T[:, null]
        B = [sum(V[i, j] * B[i] for i in range(len(B))) for j in range(len(null))]
        B = [b / np.linalg.norm(b) * 2 ** (len(labels) / 2) for b in B]
    return True


def gram_in_range(space, O, mode, labels, e):
    """Whether the exact matrix L^H L of an operator O over the common denominators 2^e can be compared in integers."""
    from lib import exact_exp, cvals
    B = [dense_op(o, labels) for o in space]
    O = dense_op(O, labels)
    s = 1 if mode == 'anticommutator' else -1
    L = np.array([(b @ O + s * O @ b).reshape(-1) for b in B]).T
    G = (L.conj().T @ L) / 2 ** len(labels)
    ce = exact_exp(cvals(G.reshape(-1)))
    return ce is not None and np.abs(G).max(initial=0) * 2.0 ** (2 * e + ce) < 2 ** 30 and np.abs(G).sum(axis=1).max(initial=0) * 2.0 ** ce < 60000
