"""Order conditions of Runge-Kutta and Nystrom methods, in exact arithmetic on
the coefficients as they are stored (binary fractions).

A node is a vector over the stages; a tree of weight w is obtained from smaller
trees by products and by multiplication with A (weight + 1) or, for Nystrom
methods, with A (weight + 2), Ap (weight + 1) or c (weight + 1).  With every
tree goes the coefficient of theta**w of the exact solution."""
from fractions import Fraction as F
from functools import lru_cache
from itertools import combinations_with_replacement
import math


def frac(a):
    import numpy as np
    if len(a) and isinstance(a[0], F):
        return list(a)
    if len(a) and isinstance(a[0], (list, tuple)) and len(a[0]) and isinstance(a[0][0], F):
        return [list(r) for r in a]
    a = np.asarray(a, float)
    if a.ndim == 1:
        return [F(float(v)) for v in a]
    return [[F(float(v)) for v in r] for r in a]


def _partitions(kids_by_w, w):
    """multisets of children with total weight w; kids_by_w[v] is a list"""
    def rec(w, maxw):
        if w == 0:
            yield ()
            return
        for v in range(min(w, maxw), 0, -1):
            ks = kids_by_w.get(v, [])
            if not ks:
                continue
            for m in range(1, w // v + 1):
                for combo in combinations_with_replacement(range(len(ks)), m):
                    for rest in rec(w - m * v, v - 1):
                        yield tuple((v, i) for i in combo) + rest
    yield from rec(w, w)


class Trees:
    """weights 0..wmax: list of (vector over stages, exact coefficient, name)"""

    def __init__(self, s, wmax, edges):
        # edges: list of (name, weight increment, matrix or vector, exact fn)
        self.by = {0: [([F(1)] * s, F(1), '.')]}
        kids = {}
        for nm, inc, M, ex in edges:
            if M and not isinstance(M[0], list):
                kids.setdefault(inc, []).append((M, F(1), nm))
        self.count = 0
        for w in range(0, wmax + 1):
            if w > 0:
                out = []
                for combo in _partitions(kids, w):
                    v, c, names = [F(1)] * s, F(1), []
                    for (kw, i) in combo:
                        kv, kc, kn = kids[kw][i]
                        v = [a * b if a and b else F(0) for a, b in zip(v, kv)]
                        c *= kc
                        names.append(kn)
                    out.append((v, c, '[' + ''.join(names) + ']'))
                self.by[w] = out
            for nm, inc, M, ex in edges:
                if not (M and isinstance(M[0], list)):
                    continue
                if w + inc > wmax:
                    continue
                L = kids.setdefault(w + inc, [])
                for v, c, n in self.by[w]:
                    mv = [sum((a * b for a, b in zip(row, v) if a and b), F(0)) for row in M]
                    L.append((mv, c * ex(w), nm + n))


def rk_trees(A, order):
    """trees with order = weight + 1"""
    return Trees(len(A), order - 1, [('', 1, frac(A), lambda w: F(1, w + 1))])


def nys_trees(A, Ap, C, order):
    """for the velocity: order = weight + 1; for the displacement: weight + 2"""
    e = [('c', 1, frac(C), None), ('x', 2, frac(A), lambda w: F(1, (w + 1) * (w + 2)))]
    if Ap is not None:
        e.append(('v', 1, frac(Ap), lambda w: F(1, w + 1)))
    return Trees(len(C), order - 1, e)


def defects(trees, b, shift, order, target=True):
    """(order, tree, defect, size) for every condition up to the order; shift 1:
    first derivative variable, 2: twice integrated"""
    b = frac(b)
    for w in sorted(trees.by):
        if w + shift > order:
            break
        for v, c, n in trees.by[w]:
            s = sum((x * y for x, y in zip(b, v) if x and y), F(0))
            size = sum((abs(x * y) for x, y in zip(b, v) if x and y), F(0))
            ex = (c / (w + 1) if shift == 1 else c / ((w + 1) * (w + 2))) if target else F(0)
            yield w + shift, n, s - ex, size


def theta_defects(trees, P, shift, order, pows):
    """interpolation weights b_i(theta) = sum_j P[i][j] theta**pows[j]: every
    power must match"""
    P = frac(P)
    s = len(P)
    for w in sorted(trees.by):
        if w + shift > order:
            break
        for v, c, n in trees.by[w]:
            for j, pw in enumerate(pows):
                t = sum((P[i][j] * v[i] for i in range(s) if P[i][j] and v[i]), F(0))
                size = sum((abs(P[i][j] * v[i]) for i in range(s) if P[i][j] and v[i]), F(0))
                ex = F(0)
                if pw == w + shift:
                    ex = c / (w + 1) if shift == 1 else c / ((w + 1) * (w + 2))
                yield w + shift, f'{n} theta^{pw}', t - ex, size


def reached(gen, order, tol=F(1, 10**10)):
    """highest order for which all defects are below tol"""
    bad = order + 1
    worst = F(0)
    for o, n, d, size in gen:
        if abs(d) > tol * (1 + size) and o < bad:
            bad = o
    return bad - 1


def defects_at(trees, b, shift, order, theta):
    """conditions for the solution at theta of the step"""
    b = frac(b)
    x = F(float(theta))
    for w in sorted(trees.by):
        if w + shift > order:
            break
        p = x ** (w + shift)
        for v, c, n in trees.by[w]:
            s = sum((q * y for q, y in zip(b, v) if q and y), F(0))
            size = sum((abs(q * y) for q, y in zip(b, v) if q and y), F(0))
            ex = (c / (w + 1) if shift == 1 else c / ((w + 1) * (w + 2))) * p
            yield w + shift, f'{n} at {theta}', s - ex, size
