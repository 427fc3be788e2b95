# -*- coding: utf-8 -*-
"""
The graph and matrix utilities: components, purging, sparse products, unitaries and stacked solutions.
"""
import itertools
from collections import defaultdict
import numpy as np
from mc.core import Family, Violation

ASSUMPTIONS = [
    "oracle: transitive closure, numpy's dense products, QR factors and stacked solutions",
    "a node with only itself as successor is a component of one node and no cycle in the sense of the sort",
]


# ------------------------------------------------------------------ strongly connected components
def closure(n, adj):
    R = [[i == j or j in adj[i] for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if R[i][k]:
                for j in range(n):
                    R[i][j] = R[i][j] or R[k][j]
    return R


def graphs(n, lo, hi, loops):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j or loops]
    for bits in range(lo, hi):
        adj = dict((i, []) for i in range(n))
        for b, (i, j) in enumerate(pairs):
            if bits >> b & 1:
                adj[i].append(j)
        yield adj


def scc_cases(tier):
    yield dict(n=1, loops=True, lo=0, hi=2)
    yield dict(n=2, loops=True, lo=0, hi=16)
    for lo in range(0, 512, 64):
        yield dict(n=3, loops=True, lo=lo, hi=lo + 64)
    for lo in range(0, 4096, 256):
        yield dict(n=4, loops=False, lo=lo, hi=lo + 256)
    if tier != 'quick':
        for lo in range(0, 65536, 1024):
            yield dict(n=4, loops=True, lo=lo, hi=lo + 1024)
        for lo in range(0, 1 << 20, 16384):
            yield dict(n=5, loops=False, lo=lo, hi=lo + 16384)


def run_scc(case, ctx):
    from phasor.math.key_matrix import keymatrix_reduce_tarjan as kt
    n = case['n']
    for adj in graphs(n, case['lo'], case['hi'], case['loops']):
        R = closure(n, adj)
        want = set(frozenset(j for j in range(n) if R[i][j] and R[j][i]) for i in range(n))
        # node labels are fresh equal objects at every use; all orders of the nodes, both orders of the successors
        starts = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]
        if n == 4 and not case['loops']:
            starts += [(1, 3, 0, 2), (2, 0, 3, 1), (0,), (3, 1)]
        for start in starts:
            for rev in (False, True):
                def succ(k):
                    s = [('node', j) for j in adj[k[1]]]
                    return reversed(s) if rev else s
                out = [tuple(k for _, k in c) for c in kt.topological_sort([('node', i) for i in start], succ)]
                reach = set(j for i in start for j in range(n) if R[i][j])
                w = set(c for c in want if c <= reach)
                ctx.require(set(map(frozenset, out)) == w and sum(map(len, out)) == len(reach),
                            lambda: 'components of {0} from {1}: {2}'.format(adj, start, out))
                pos = dict((k, i) for i, c in enumerate(out) for k in c)
                ctx.require(all(pos[j] <= pos[i] for i in reach for j in adj[i]), lambda: 'components of {0} from {1} not in order: {2}'.format(adj, start, out))
                try:
                    single = [k for _, k in kt.topological_sort([('node', i) for i in start], succ, single=True)]
                    cyc = False
                except kt.SCCError as E:
                    cyc = True
                    ctx.require(frozenset(k for _, k in E.scc) in w and len(E.scc) > 1, lambda: 'the cycle reported for {0}: {1}'.format(adj, E))
                ctx.require(cyc == any(len(c) > 1 for c in w), lambda: 'single sort of {0} from {1} and cycles'.format(adj, start))
                if not cyc:
                    ctx.require([(k,) for k in single] == out, lambda: 'single sort of {0}'.format(adj))
                ctx.step(2)
        if not any(len(c) > 1 for c in want):
            d = list(kt.topological_sort_dict(dict((k, v) for k, v in adj.items() if v or k == 0)))
            ctx.require(all(d.index(j) <= d.index(i) for i in adj for j in adj[i]), lambda: 'sorted dictionary {0}: {1}'.format(adj, d))
        ctx.state(case['n'], sorted((k, tuple(v)) for k, v in adj.items()))
        ctx.trace()
        ctx.cls('{0} nodes {1} components'.format(n, len(want)))


# ------------------------------------------------------------------ purging
def purge_cases(tier):
    for lo in range(0, 512, 64):
        yield dict(n=3, loops=True, lo=lo, hi=lo + 64)
    hi = 4096
    for lo in range(0, hi, 256):
        yield dict(n=4, loops=False, lo=lo, hi=lo + 256)
    if tier != 'quick':
        for lo in range(0, 65536, 2048):
            yield dict(n=4, loops=True, lo=lo, hi=lo + 2048)


def run_purge(case, ctx):
    from phasor.matrix import matrix_generic as mg
    n = case['n']
    for adj in graphs(n, case['lo'], case['hi'], case['loops']):
        R = closure(n, adj)
        for keep in itertools.chain.from_iterable(itertools.combinations(range(n), m) for m in range(1, n)):
            for which in ('req', 'seq'):
                seq = defaultdict(set)
                req = defaultdict(set)
                em = dict()
                for i in range(n):
                    seq[i], req[i]
                for i in adj:
                    for j in adj[i]:
                        seq[i].add(j)
                        req[j].add(i)
                        em[i, j] = 10 * i + j
                if which == 'req':
                    mg.purge_reqless_inplace(except_set=set(keep), seq=seq, req=req, edge_map=em)
                    live = set(j for i in keep for j in range(n) if R[i][j])
                else:
                    mg.purge_seqless_inplace(except_set=set(keep), seq=seq, req=req, edge_map=em)
                    live = set(j for i in keep for j in range(n) if R[j][i])
                want = dict(((i, j), 10 * i + j) for i in adj for j in adj[i] if i in live and j in live)
                # edges into purged nodes may only be left where their nodes are gone
                left = dict((k, v) for k, v in em.items() if k[0] in live and k[1] in live)
                msg = lambda: 'purge {0} of {1} keeping {2}: {3} {4}'.format(which, adj, keep, dict(seq), em)
                ctx.require(left == want, msg)
                ctx.require(dict((k, set(v)) for k, v in seq.items() if v) == dict((i, set(j for j in adj[i] if j in live)) for i in live if any(j in live for j in adj[i])), msg)
                ctx.require(dict((k, set(v)) for k, v in req.items() if v) == dict((j, set(i for i in live if j in adj[i])) for j in live if any(j in adj[i] for i in live)), msg)
                ctx.require(set(seq) == live and set(req) == live, msg)
                mg.check_seq_req_balance(seq, req)
                ctx.step()
        # edges which are in the sequence but not in the map
        for miss in itertools.chain([None], ((i, j) for i in adj for j in adj[i])):
            seq = defaultdict(set, dict((i, set(adj[i])) for i in adj))
            req = defaultdict(set, dict((j, set(i for i in adj if j in adj[i])) for j in adj))
            em = dict(((i, j), 1) for i in adj for j in adj[i] if (i, j) != miss)
            mg.pre_purge_inplace(seq, req, em)
            got = set((i, j) for i in seq for j in seq[i]), set((i, j) for j in req for i in req[j])
            ctx.require(got == (set(em), set(em)), lambda: 'pre purge of {0} without {1}: {2}'.format(adj, miss, got))
            ctx.step()
        ctx.state(n, sorted((k, tuple(v)) for k, v in adj.items()))
        ctx.trace()
    ctx.cls('{0} {1}'.format(n, case['loops']))


# ------------------------------------------------------------------ sparse matrices
V2 = [0, 1., -2j, .5]
ARR = [0, 1 + 1j, np.array([2., -1.]), np.array([[1j], [3.]])]


def sre(M, froms, tos, dd=True):
    seq = defaultdict(set) if dd else {}
    req = defaultdict(set) if dd else {}
    em = {}
    for f in froms:
        seq[f] = set()
    for t in tos:
        req[t] = set()
    for i, t in enumerate(tos):
        for j, f in enumerate(froms):
            if np.any(M[i][j] != 0):
                seq[f].add(t)
                req[t].add(f)
                em[f, t] = M[i][j]
    return seq, req, em


def dense(s, froms, tos):
    sh = np.broadcast(*([np.zeros(())] + list(s[2].values()))).shape if s[2] else ()
    M = np.zeros(sh + (len(tos), len(froms)), complex)
    for (f, t), e in s[2].items():
        M[..., tos.index(t), froms.index(f)] = e
    return M


def stack(M, n):
    sh = np.broadcast_shapes(*[np.shape(x) for r in M for x in r])
    out = np.zeros(sh + (len(M), n), complex)
    for i, r in enumerate(M):
        for j, x in enumerate(r):
            out[..., i, j] = x
    return out


def sre_cases(tier):
    for m in itertools.product(range(4), repeat=4):
        yield dict(m=list(m), vals='scalar', tier=tier)
        if tier != 'quick' or m[0] <= m[3]:
            yield dict(m=list(m), vals='array', tier=tier)


def run_sre(case, ctx):
    from phasor.matrix import SRE_matrix_algorithms as S
    V = V2 if case['vals'] == 'scalar' else ARR
    A = [[V[case['m'][0]], V[case['m'][1]]], [V[case['m'][2]], V[case['m'][3]]]]
    fs, ms, ts = ['a', 'b'], ['p', 'q'], ['x', 'y', 'z']
    Ad = stack(A, 2)
    for dd in (True, False):
        a = sre(A, fs, ms, dd)
        S.check_sre(a)
        adj = S.adjoint_sre(a)
        S.check_sre(adj)
        ctx.require(np.array_equal(np.broadcast_to(dense(adj, ms, fs), Ad.shape), np.conj(np.swapaxes(Ad, -1, -2))), lambda: 'adjoint of {0}'.format(A))
        c = S.copy_sre(a)
        ctx.require(np.array_equal(dense(c, fs, ms), dense(a, fs, ms)), 'copy')
        for f in fs:
            c[0][f].add('new')
        c[2]['a', 'p'] = 77
        ctx.require(a[2].get(('a', 'p'), 0) is not c[2]['a', 'p'] and 'new' not in a[0]['a'], 'the copy shares its parts')
        n = sum(1 for r in A for x in r if np.any(x != 0))
        sp = S.SRE_count_sparsity(a)
        ctx.require(sp.Nedges == n and sp.Nnodes == 2 and sp.density_lin == n / 2 and sp.density_sq == n / 4, 'sparsity')
        ctx.step(4)
    bad = dict(a[2])
    if bad:
        k = sorted(bad)[0]
        del bad[k]
        try:
            S.check_sre((a[0], a[1], bad))
        except KeyError:
            pass
        else:
            raise Violation('an edge without value passes the check')
    for nn in itertools.product(range(4), repeat=4 if case['tier'] == 'quick' else 6):
        B = [[V[nn[0]], V[nn[1]]], [V[nn[2]], V[nn[3]]], [V[nn[(i + 1) % 4]] for i in range(2)] if len(nn) == 4 else [V[nn[4]], V[nn[5]]]]
        b = sre(B, ms, ts)
        a = sre(A, fs, ms)
        r = S.matrix_mult_sre(a, b)
        S.check_sre(r)
        want = np.matmul(stack(B, 2), Ad)
        ctx.close(np.broadcast_to(dense(r, fs, ts), want.shape), want, lambda: 'product {1} {0}'.format(A, B), rtol=1e-12, atol=1e-12)
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls(n)


def uni_cases(tier):
    for m in itertools.product(range(4), repeat=5):
        yield dict(m=list(m), tier=tier)


def run_uni(case, ctx):
    """Gram Schmidt columns of all 3x3 matrices whose first columns are enumerated"""
    from phasor.matrix import SRE_matrix_algorithms as S
    V = [0, 1., -2j, .5 + 1j]
    m = case['m']
    stack = []
    tails = list(itertools.product(range(4), repeat=4)) if case['tier'] != 'quick' else [(0, 0, 0, 1), (0, 1, 2, 0), (3, 0, 1, 1), (1, 1, 0, 0), (0, 2, 0, 3), (2, 1, 3, 1)]
    for t in tails:
        e = [V[i] for i in list(m) + list(t)]
        fs, ts = ['a', 'b', 'c'], ['x', 'y', 'z']
        M = np.array(e, complex).reshape(3, 3).T
        if not all(M[:, j].any() for j in range(3)):
            continue
        em = dict(((f, tt), M[i, j]) for j, f in enumerate(fs) for i, tt in enumerate(ts) if M[i, j] != 0)
        sv = np.linalg.svd(M)[1]
        if sv[-1] < 1e-9:
            continue
        u = S.edge_matrix_to_unitary_sre(dict(em))
        ctx.require(u is not None, lambda: 'no unitary for the regular {0}'.format(M.tolist()))
        U = dense(u, fs, ts)
        stack.append(M)
        ctx.close(U.conj().T @ U, np.eye(3), lambda: 'columns from {0} are not orthonormal'.format(M.tolist()), rtol=1e-9, atol=1e-9)
        Q, R = np.linalg.qr(M)
        ph = np.diag(R) / abs(np.diag(R))
        ctx.close(U, Q * ph, lambda: 'unitary of {0}'.format(M.tolist()), rtol=1e-9, atol=1e-9)
        for f in range(3):
            ctx.require(set(u[0][fs[f]]) == set(tt for (ff, tt) in u[2] if ff == fs[f]), 'sequence of the unitary')
        ctx.step()
        ctx.state(e)
        ctx.trace()
    # arrays of matrices, one index each
    if len(stack) > 1:
        for grp in ([stack[i:i + 6] for i in range(0, len(stack), 6)]):
            A = np.array(grp)
            em = dict(((f, tt), A[:, i, j].copy()) for j, f in enumerate(fs) for i, tt in enumerate(ts) if A[:, i, j].any())
            u = S.edge_matrix_to_unitary_sre(em)
            ctx.require(u is not None, lambda: 'no unitary for the regular matrices {0}'.format(A.tolist()))
            for k, M in enumerate(grp):
                U = np.array([[(np.asarray(u[2].get((f, tt), 0)) + np.zeros(len(grp)))[k] for f in fs] for tt in ts])
                Q, R = np.linalg.qr(M)
                ph = np.diag(R) / abs(np.diag(R))
                ctx.close(U, Q * ph, lambda: 'unitary of {0} as index {1} of arrays of {2} matrices'.format(M.tolist(), k, len(grp)), rtol=1e-9, atol=1e-9)
            ctx.step()
    ctx.cls('unitary')


# ------------------------------------------------------------------ stacked solutions
SHAPES = [(), (1,), (2,), (3,), (1, 1), (2, 1), (1, 3), (2, 3), (2, 2), (3, 1, 2), (2, 1, 1)]


def bcast_cases(tier):
    for i in range(len(SHAPES)):
        yield dict(i=i)


def run_bcast(case, ctx):
    from phasor.matrix import linalg
    sm = SHAPES[case['i']]
    for sv in SHAPES:
        for n in (1, 2, 3):
            for cplx in (False, True):
                try:
                    sh = np.broadcast_shapes(sm, sv)
                except ValueError:
                    continue
                M = np.sin(1 + np.arange(int(np.prod(sm)) * n * n) * 1.3).reshape(sm + (n, n)) + 2 * np.eye(n)
                b = np.cos(2 + np.arange(int(np.prod(sv)) * n) * .7).reshape(sv + (n,))
                if cplx:
                    b = b * (1 + 1j)
                r = linalg.linalg_solve_bcast(M, b)
                want = np.linalg.solve(np.broadcast_to(M, sh + (n, n)), np.broadcast_to(b, sh + (n,))[..., None])[..., 0]
                ctx.require(np.shape(r) == np.shape(want), lambda: 'shape of the solution {0} of {1} and {2}'.format(np.shape(r), sm, sv))
                ctx.close(r, want, lambda: 'solution of {0} and {1}'.format(sm, sv), rtol=1e-9, atol=1e-9)
                ctx.step()
        ctx.state(sm, sv)
        ctx.trace()
    for r in itertools.chain.from_iterable(itertools.product([0, 1, 2, 3, [5, 7]], repeat=k) for k in (1, 2, 3)):
        want = list(itertools.product(*[x if isinstance(x, list) else range(x) for x in r]))
        ctx.require(list(linalg.stackrange(r)) == want, lambda: 'ranges {0}'.format(r))
    ctx.cls(len(sm))


FAMILIES = [
    Family('components', scc_cases, run_scc, 'all digraphs of up to 3 nodes with loops and 4 without (thorough: 4 with, 5 without), all or several orders of the nodes, both orders of successors, sorting with and without cycles', chunk=1),
    Family('purging', purge_cases, run_purge, 'all digraphs of 3 nodes with loops, 4 without (with) loops, all sets of nodes kept, forwards and backwards; a missing edge value at every place', chunk=1),
    Family('sparse', sre_cases, run_sre, 'all products of 3x2 and 2x2 matrices over 4 values, scalars and arrays of different shapes, adjoints, copies', chunk=4),
    Family('unitaries', uni_cases, run_uni, '3x3 matrices over 4 values (quick: 6 values of the last 4 entries), alone and in arrays of up to 6', chunk=32),
    Family('stacks', bcast_cases, run_bcast, 'all pairs of 11 stack shapes, 3 sizes, real and complex; all ranges of up to 3 of 5 extents'),
]
