# -*- coding: utf-8 -*-
"""
The steady state of a coupled network solved by the graph-elimination solvers is exact.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import matref

ASSUMPTIONS = [
    "oracle: dense numpy inverse of (1 - M); only networks with cond(1-M) < 1e5 are judged",
    "the plain elimination solver is only judged when all the principal minors are away from zero",
    "elimination order is driven by node labels: all labelled networks of the given size are enumerated, "
    "so all orders of a given network are",
]


def value(code, i, j):
    if code == 1:
        return matref.gen(i, j)
    if code == 2:
        return 1
    if code == 3:
        return 30. * matref.gen(j, i)
    if code == 4:
        return 0.
    if code == 5:
        return -1j
    if code == 6:
        return 1e-3 * matref.gen(i, j, 7)
    raise KeyError(code)


def edges_of(n, codes):
    return dict(((i, j), value(codes[i * n + j], i, j)) for i in range(n) for j in range(n) if codes[i * n + j])


def check(ctx, edges, n, solvers=matref.SOLVERS, register=True, ins=None, outs=None, inputs_map=None, scattering=True,
          negative=False, purge=True, M=None, skip_ok=True):
    nodes = list(range(n))
    ins = nodes if ins is None else ins
    outs = nodes if outs is None else outs
    M = matref.dense(edges, nodes) if M is None else M
    A = (np.eye(n) - M) if scattering else M
    if not matref.well_posed(A):
        ctx.cls('singular: skipped')
        return
    ref = np.linalg.inv(A)
    if negative:
        ref = -ref
    tol = 1e-9 * max(1., np.linalg.cond(A)) * max(1, abs(ref).max())
    for s in solvers:
        if s == 'loop_fast_unstable' and (not scattering or not matref.minors_ok(A)):
            continue
        if s == 'scisparse' and not scattering and inputs_map is not None:
            continue
        if s == 'scisparse' and inputs_map is not None and ins:
            continue
        seq, req, emap = matref.build(edges, nodes if register else None)
        kw = dict()
        if not purge:
            kw.update(purge_in=False, purge_out=False)
        r = matref.solver(s)(
            seq=seq, req=req, edge_map=emap, inputs_set=set(ins), outputs_set=set(outs),
            inputs_map=None if inputs_map is None else dict(inputs_map),
            scattering=scattering, negative=negative, **kw
        )
        ctx.step(n)
        for i in ins:
            for o in outs:
                got = r.edge_map.get((i, o), 0)
                ctx.require(abs(complex(got) - ref[o, i]) <= tol,
                            lambda: "{0}: response {1}->{2} is {3}, expected {4}".format(s, i, o, got, ref[o, i]))
                ctx.require(((i, o) in r.edge_map) == (o in r.seq.get(i, ())) == (i in r.req.get(o, ())),
                            lambda: "{0}: sequence/requisite maps disagree with the responses".format(s))
        extra = [k for k in r.edge_map if k[0] not in ins or k[1] not in outs]
        ctx.require(not extra, lambda: "{0}: responses that were not requested {1}".format(s, extra))
        if inputs_map is not None:
            for o in outs:
                got = r.outputs_map.get(o, 0)
                want = sum(ref[o, i] * v for i, v in inputs_map.items())
                ctx.require(abs(complex(got) - want) <= tol * 10,
                            lambda: "{0}: field at {1} is {2}, expected {3}".format(s, o, got, want))
        ctx.trace()
    ctx.cls('edges={0} loops={1}'.format(len(edges), sum(1 for a, b in edges if a == b)))


def run_full(case, ctx):
    n, codes = case
    edges = edges_of(n, codes)
    ctx.state('full', n, codes)
    check(ctx, edges, n)
    if n == 2:
        # nodes without couplings are not mentioned in the sequence maps
        check(ctx, edges, n, register=False)


def cases_full(tier):
    for codes in itertools.product(range(6), repeat=4):
        yield [2, codes]
    pal = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)
    for codes in itertools.product(pal, repeat=9):
        yield [3, codes]
    if tier != 'quick':
        for codes in itertools.product((0, 5, 6), repeat=9):
            yield [3, codes]
        for codes in itertools.product((0, 1), repeat=16):
            yield [4, codes]


# very different magnitudes: needs pivoting
def cases_pivot(tier):
    pal = ((0, 3), (3, 6)) if tier == 'quick' else ((0, 3, 6), (2, 3, 6), (1, 3, 4))
    for p in pal:
        for codes in itertools.product(p, repeat=9):
            yield [3, codes]
    if tier != 'quick':
        for p in ((0, 3), (3, 6), (0, 2)):
            for codes in itertools.product(p, repeat=16):
                yield [4, codes]
    else:
        # 4 nodes: all the networks with 2 edges into every node (ring-like, no node is trivial)
        for sel in itertools.product(list(itertools.combinations(range(4), 2)), repeat=4):
            codes = [0] * 16
            for t, fr in enumerate(sel):
                for k, f in enumerate(fr):
                    codes[f * 4 + t] = 3 if (k + t) % 2 else 1
            yield [4, codes]


def run_pivot(case, ctx):
    n, codes = case
    edges = edges_of(n, codes)
    ctx.state('pivot', n, codes)
    check(ctx, edges, n)


# subsets of inputs and outputs, with source vectors, sign conventions
def cases_subsets(tier):
    subs = [[k for k in range(3) if m >> k & 1] for m in range(8)]
    for m in range(512):
        codes = [m >> b & 1 for b in range(9)]
        if tier == 'quick' and bin(m).count('1') > 5:
            continue
        yield [3, codes]


def run_subsets(case, ctx):
    n, codes = case
    edges = edges_of(n, codes)
    subs = [[k for k in range(n) if m >> k & 1] for m in range(1, 1 << n)]
    for ins in subs:
        for outs in subs:
            ctx.state('sub', codes, ins, outs)
            check(ctx, edges, n, ins=ins, outs=outs, register=bool(codes[0]))
    for src in subs:
        imap = dict((k, 0.5 + k * 1j) for k in src)
        for outs in subs:
            check(ctx, edges, n, ins=[], outs=outs, inputs_map=imap, register=bool(codes[0]))
            check(ctx, edges, n, ins=[src[0]], outs=outs, inputs_map=imap)
    check(ctx, edges, n, negative=True)


def run_nonscatter(case, ctx):
    n, codes = case
    edges = edges_of(n, codes)
    ctx.state('inv', codes)
    for neg in (False, True):
        check(ctx, edges, n, solvers=('loop_LUQ', 'scisparse'), scattering=False, negative=neg)


def cases_nonscatter(tier):
    for codes in itertools.product((0, 1, 3), repeat=9):
        yield [3, codes]
    if tier != 'quick':
        for codes in itertools.product((0, 1), repeat=16):
            yield [4, codes]


# larger structured networks: coupled cavity chains (bidirectional ring links), all labellings
def cases_chain(tier):
    for n in ((5,) if tier == 'quick' else (5, 6)):
        for perm in itertools.permutations(range(n)):
            if n == 6 and perm[0] > perm[-1]:
                continue
            yield [n, perm]


def run_chain(case, ctx):
    n, perm = case
    ctx.state('chain', perm)
    edges = {}
    for k in range(n - 1):
        edges[perm[k], perm[k + 1]] = 0.9 * np.exp(1j * (k + 1))
        edges[perm[k + 1], perm[k]] = -0.7 * np.exp(2j * k)
    edges[perm[0], perm[0]] = 0.5j
    edges[perm[0], perm[-1]] = 12.
    edges[perm[-1], perm[0]] = 0.3
    check(ctx, edges, n)


def attenuated(n, codes):
    """positive couplings of loop gains below a half, most of them strong attenuations: no response has cancellations"""
    from fractions import Fraction as Q
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    vals = [Q(1, 4), Q(1, 10**11), Q(3, 10**9)]
    return {p: vals[c - 1] * (1 + Q(k, 64)) for k, (p, c) in enumerate(zip(pairs, codes)) if c}


def cases_atten(tier):
    for codes in itertools.product((0, 1, 2), repeat=6):
        yield [3, codes]
    if tier != 'quick':
        for codes in itertools.product((0, 1, 2, 3), repeat=6):
            if 3 in codes:
                yield [3, codes]
        for codes in itertools.product((0, 2), (0, 1), (0, 2), (0, 2), (0, 2), (0, 1), (0, 1), (0, 2), (0, 2), (0, 1), (0, 1), (0, 2)):
            yield [4, codes]


def run_atten(case, ctx):
    """small responses keep their relative accuracy beside large ones; exact oracle"""
    from fractions import Fraction as Q
    n, codes = case
    q = attenuated(n, codes)
    # gauss jordan without pivots, exact
    A = [[Q(int(i == j)) - q.get((j, i), 0) for j in range(n)] + [Q(int(i == j)) for j in range(n)] for i in range(n)]
    for k in range(n):
        d = A[k][k]
        A[k] = [x / d for x in A[k]]
        for i in range(n):
            if i != k:
                f = A[i][k]
                A[i] = [x - f * y for x, y in zip(A[i], A[k])]
    nodes = list(range(n))
    for s in matref.SOLVERS:
        for ins in [nodes] + [[i] for i in nodes]:
            for outs in ([nodes] if len(ins) > 1 else [nodes] + [[o] for o in nodes]):
                seq, req, emap = matref.build({p: float(v) for p, v in q.items()}, nodes)
                r = matref.solver(s)(seq=seq, req=req, edge_map=emap, inputs_set=set(ins), outputs_set=set(outs), inputs_map=None, scattering=True, negative=False)
                for i in ins:
                    for o in outs:
                        want = float(A[o][n + i])
                        got = complex(r.edge_map.get((i, o), 0))
                        ctx.require(abs(got - want) <= 1e-9 * abs(want),
                                    lambda: "{0}: response {1}->{2} is {3}, expected {4} (requested {5} to {6})".format(s, i, o, got, want, ins, outs))
                ctx.step()
    ctx.state('atten', n, codes)
    ctx.trace()
    ctx.cls('{0} attenuations'.format(sum(1 for c in codes if c > 1)))


FAMILIES = [
    Family('all-networks', cases_full, run_full,
           "all networks of 2 nodes (6 values per edge) and 3 nodes (3 values per edge, 4 in the thorough tier, "
           "all 65536 graphs of 4 nodes there), every input and output requested"),
    Family('magnitudes', cases_pivot, run_pivot,
           "edges of very different magnitude, forcing pivoting and reflections"),
    Family('requests', cases_subsets, run_subsets,
           "3-node graphs x every non-empty subset of inputs x outputs x source vectors"),
    Family('plain-inverse', cases_nonscatter, run_nonscatter,
           "plain matrix inverse (no implicit identity) of all 3-node networks over 3 edge values"),
    Family('attenuations', cases_atten, run_atten,
           "3-node networks (thorough: 4) of positive couplings of 1/4 and 1e-11, every input alone and all, each response to relative accuracy against exact rationals"),
    Family('chains', cases_chain, run_chain, "coupled-cavity chain with every labelling of its nodes"),
]
