# -*- coding: utf-8 -*-
"""
Solving with array valued couplings is the same as solving every element separately.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import matref

ASSUMPTIONS = [
    "oracle: dense numpy inverse of (1 - M) at every index of the broadcast arrays; "
    "networks singular (cond > 1e5) at any index are not judged",
    "the plain elimination solver is only judged when all the principal minors are away from zero at every index",
]


def value(code, i, j):
    g = matref.gen(i, j)
    h = matref.gen(j + 3, i)
    if code == 1:
        return np.array([g, h])
    if code == 2:
        return np.array([0, g])
    if code == 3:
        return np.array([h, 0])
    if code == 4:
        return np.array([1, h])
    if code == 5:
        return np.array([g, 50 * h])
    if code == 6:
        return g
    if code == 7:
        return np.array([[g], [h], [0]])
    if code == 8:
        return np.array([[1.], [0], [-2j]])
    if code == 9:
        return np.array([1 - 1e-12, g])
    if code == 10:
        return np.array([g, 1 - 1e-12])
    if code == 11:
        return np.array([1 - 1e-9, 1 + 1e-13])
    raise KeyError(code)


def run(case, ctx):
    n, codes = case
    edges = dict(((i, j), value(codes[i * n + j], i, j)) for i in range(n) for j in range(n) if codes[i * n + j])
    nodes = list(range(n))
    shape = np.broadcast(*([np.zeros(())] + [np.asarray(v) for v in edges.values()])).shape if edges else ()
    ctx.state(n, codes)
    refs = {}
    allmin = True
    scale = 1.
    for index in np.ndindex(*shape):
        A = np.eye(n) - matref.dense(edges, nodes, index)
        if not matref.well_posed(A):
            ctx.cls('singular at some index: skipped')
            return
        allmin = allmin and matref.minors_ok(A)
        refs[index] = np.linalg.inv(A)
        scale = max(scale, np.linalg.cond(A) * abs(refs[index]).max())
    tol = 1e-9 * scale
    for s in matref.SOLVERS:
        if s == 'loop_fast_unstable' and not allmin:
            continue
        seq, req, emap = matref.build(edges, nodes)
        orig = dict((k, np.array(v)) for k, v in edges.items())
        imap = None
        ins = set(nodes)
        r = matref.solver(s)(seq=seq, req=req, edge_map=emap, inputs_set=ins, outputs_set=set(nodes), scattering=True)
        ctx.step(n * max(1, len(refs)))
        for i in nodes:
            for o in nodes:
                got = np.asarray(r.edge_map.get((i, o), 0))
                try:
                    got = np.broadcast_to(got, shape)
                except ValueError:
                    ctx.require(False, "{0}: response {1}->{2} has shape {3}, not {4}".format(s, i, o, got.shape, shape))
                for index, ref in refs.items():
                    ctx.require(abs(got[index] - ref[o, i]) <= tol, lambda:
                                "{0}: response {1}->{2} at index {3} is {4}, expected {5}".format(
                                    s, i, o, index, got[index], ref[o, i]))
        for k, v in edges.items():
            ctx.require(np.array_equal(orig[k], v), lambda: "{0}: the coupling array {1} given by the caller was modified".format(s, k))
        # source vector form, with an array valued source
        src = np.linspace(1, 2, shape[-1]) if shape else 1.5
        imap = {0: src, n - 1: 2j} if n > 1 else {0: src}
        seq, req, emap = matref.build(edges, nodes)
        r = matref.solver(s)(seq=seq, req=req, edge_map=emap, outputs_set=set(nodes), inputs_map=imap, scattering=True)
        for o in nodes:
            got = np.broadcast_to(np.asarray(r.outputs_map.get(o, 0)), shape)
            for index, ref in refs.items():
                want = sum(ref[o, i] * (np.broadcast_to(v, shape)[index] if shape else v) for i, v in imap.items())
                ctx.require(abs(got[index] - want) <= 10 * tol, lambda:
                            "{0}: field {1} at index {2} is {3}, expected {4}".format(s, o, index, got[index], want))
        ctx.trace(max(1, len(refs)))
    ctx.cls('shape {0} edges {1}'.format(shape, len(edges)))


def cases(tier):
    for codes in itertools.product(range(9), repeat=4):
        yield [2, codes]
    for pal in (((0, 2, 3), (0, 1, 4)) if tier == 'quick' else
                ((0, 2, 3), (0, 1, 4), (0, 2, 3, 4), (0, 3, 7, 8), (1, 2, 5), (0, 5, 6, 7))):
        for k, codes in enumerate(itertools.product(pal, repeat=9)):
            yield [3, codes]


def cases4(tier):
    # every node fed by two others, array zeros in all the complementary patterns
    pats = list(itertools.combinations(range(4), 2))
    for sel in itertools.product(pats, repeat=4):
        for z in range(2 if tier == 'quick' else 8):
            codes = [0] * 16
            for t, fr in enumerate(sel):
                for k, f in enumerate(fr):
                    codes[f * 4 + t] = (2, 3, 4, 5, 1, 7)[(k + z + t * (z % 3)) % 6]
            yield [4, codes]


def cases_near(tier):
    # self loops within rounding of resonance at some of the indices, every pattern of the other couplings
    diag = (0, 9, 10) if tier == 'quick' else (0, 9, 10, 11, 1)
    off = [(i, j) for i in range(3) for j in range(3) if i != j]
    for pat in range(1 << 6):
        if bin(pat).count('1') < 3:
            continue
        for d in itertools.product(diag, repeat=3):
            if not any(x in (9, 10, 11) for x in d):
                continue
            for c in (1,) if tier == 'quick' else (1, 6, 5):
                codes = [0] * 9
                for i in range(3):
                    codes[4 * i] = d[i]
                for k, (i, j) in enumerate(off):
                    if pat >> k & 1:
                        codes[3 * i + j] = c
                yield [3, codes]


FAMILIES = [
    Family('arrays', cases, run,
           "all 2-node networks over 8 scalar/1-d/2-d coupling shapes with zeros and unit loops at some indices; "
           "all 3-node networks over several 3/4-element palettes"),
    Family('near-resonance', cases_near, run, "3-node networks with every pattern of at least 3 couplings between nodes and self loops within 1e-12 of one at some of the indices"),
    Family('arrays-4', cases4, run, "4-node networks with two couplings into every node"),
]
