# -*- coding: utf-8 -*-
"""Reference (dense linear algebra) and drivers for the graph solvers."""
import itertools
from collections import defaultdict
import numpy as np

SOLVERS = ('loop_fast_unstable', 'loop_LUQ', 'scisparse')


def solver(name):
    from phasor.matrix import solvers_registry
    return solvers_registry.solvers_all[name]().inverse_solve_inplace


# "generic" complex numbers, with no accidental relations between them
def gen(i, j, n=4):
    k = i * n + j + 1
    return complex(np.cos(2.3 * k) * (0.35 + 0.07 * k % 0.5), 0.6 * np.sin(1.7 * k * k))


def build(edges, nodes=None):
    """edges: {(from, to): value}"""
    seq = defaultdict(set)
    req = defaultdict(set)
    emap = dict()
    for (f, t), v in edges.items():
        seq[f].add(t)
        req[t].add(f)
        emap[f, t] = v
    for n in (nodes or ()):
        seq[n]
        req[n]
    return seq, req, emap


def dense(edges, nodes, index=None):
    idx = dict((n, i) for i, n in enumerate(nodes))
    M = np.zeros((len(nodes), len(nodes)), dtype=complex)
    for (f, t), v in edges.items():
        if index is not None:
            v = np.asarray(v)
            v = v[tuple(0 if s == 1 else k for s, k in zip(v.shape, index[len(index) - v.ndim:]))] if v.ndim else v[()]
        M[idx[t], idx[f]] += complex(v)
    return M


def well_posed(A, lim=1e5):
    try:
        return np.linalg.cond(A) < lim
    except np.linalg.LinAlgError:
        return False


def minors_ok(A, lim=2e-2):
    """all the principal minors are away from zero: plain elimination works in any order"""
    n = len(A)
    for k in range(1, n + 1):
        for S in itertools.combinations(range(n), k):
            if abs(np.linalg.det(A[np.ix_(S, S)])) < lim:
                return False
    return True
