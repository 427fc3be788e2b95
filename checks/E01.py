# -*- coding: utf-8 -*-
"""
Electrical networks obey Kirchhoff's laws and the laws of their elements.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import elecref
from mc.elecref import PORTS

ASSUMPTIONS = [
    "oracle: dense sparse-tableau solution (Kirchhoff + element laws) at every frequency; ill posed networks "
    "(tableau condition number above 1e7) are not judged",
    "transformers are out of scope (DESIGN.md)",
]

F_AC = [0.7, 13., 160.]


def check_net(net, style, ctx, solver=None, diff=()):
    import phasor.electronics as E
    import phasor.readouts as readouts
    import phasor.system as system
    F = np.array(F_AC)
    tabs = [elecref.Tableau(net, f) for f in F_AC]
    tabsN = [elecref.Tableau(net, -f) for f in F_AC]
    if not all(t.ok for t in tabs):
        ctx.cls('ill posed: skipped')
        return
    dc = elecref.Tableau(net, 0.)
    dc_ok = dc.ok
    kw = dict() if solver is None else dict(solver_name=solver)
    sys = system.BGSystem(F_AC=F, **kw)
    objs = []
    for e, (typ, val, nodes) in enumerate(net):
        v = val if dc_ok or typ not in ('V', 'I', 'VB', 'VBI', 'IB') else 0
        sys.insert(elecref.construct(typ, v), 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    elecref.bond_net(sys, objs, net, style)
    reads = []
    for e, (typ, val, nodes) in enumerate(net):
        for p in range(len(nodes)):
            port = getattr(objs[e], PORTS[typ][p])
            nm = 'R{0}_{1}'.format(e, p)
            sys.insert(E.VoltageReadout(terminal=port), nm + 'V')
            reads.append((nm + 'V', lambda V, I, k=(e, p): V[tabs[0].pidx[k]]))
            sys.insert(E.CurrentReadout(terminal=port, direction='in'), nm + 'I')
            reads.append((nm + 'I', lambda V, I, k=(e, p): I[tabs[0].pidx[k]]))
            if p == 0:
                sys.insert(E.CurrentReadout(terminal=port, direction='out'), nm + 'O')
                reads.append((nm + 'O', lambda V, I, k=(e, p): -I[tabs[0].pidx[k]]))
    for (e1, p1), (e2, p2) in diff:
        nm = 'D{0}_{1}_{2}_{3}'.format(e1, p1, e2, p2)
        sys.insert(E.VoltageReadout(
            terminal=getattr(objs[e1], PORTS[net[e1][0]][p1]),
            terminal_N=getattr(objs[e2], PORTS[net[e2][0]][p2])), nm)
        reads.append((nm, lambda V, I, a=(e1, p1), b=(e2, p2): V[tabs[0].pidx[a]] - V[tabs[0].pidx[b]]))
    ACs = []
    for e in tabs[0].src_rows:
        drv = objs[e].ps_In.i if net[e][0] in ('I', 'VBI', 'IB') else objs[e].V.i
        for nm, f in reads:
            r = getattr(sys, nm)
            out = r.V.o if nm[-1] == 'V' or nm[0] == 'D' else r.I.o
            sys.insert(readouts.ACReadout(portD=drv, portN=out, include_noise=False), 'AC{0}_{1}'.format(e, nm))
            ACs.append((e, nm, f))
    if dc_ok:
        V, I = dc.solve(dict((e, net[e][1]) for e in dc.src_rows))
        sc = max(abs(V).max(), 50 * abs(I).max(), 1e-3)
        for nm, f in reads:
            ctx.close(getattr(sys, nm).DC_readout, f(V, I).real,
                      lambda: "DC reading {0} of {1}".format(nm, net), rtol=1e-6, atol=1e-7 * sc)
            ctx.step()
    refs = {}
    for e in tabs[0].src_rows:
        refs[e] = [t.solve({e: 1.}) for t in tabs]
    for e, nm, f in ACs:
        want = np.array([f(V, I) for V, I in refs[e]])
        sc = max(max(abs(V).max(), 50 * abs(I).max()) for V, I in refs[e])
        got = getattr(sys, 'AC{0}_{1}'.format(e, nm)).AC_sensitivity
        ctx.close(got, want, lambda: "response of {0} to source {1} of {2}".format(nm, e, net), rtol=1e-6, atol=1e-7 * sc)
        ctx.step(len(F))
    ctx.state(net, style, solver)
    ctx.trace()
    ctx.cls('{0} elements {1} nodes {2} dc={3}'.format(len(net), len(set(n for x in net for n in x[2])), style, dc_ok))


R = [['SR', 30.], ['SC', 2e-4], ['SL', [0.05, 4.]], ['CBL', 3e6]]
SH = [None, ['TR', 75.], ['TC', 1e-4], ['TL', [0.2, 1.]]]
END = [None, ['TO', None], ['TS', None], ['TR', 20.], ['TM', None]]


def run_net(case, ctx):
    check_net(case['net'], case['style'], ctx, solver=case.get('solver'), diff=case.get('diff', ()))


def cases_ladder(tier):
    n = 2 if tier == 'quick' else 3
    for k in range(1, n + 1):
        for src in (['V', 2.], ['I', 0.1]):
            for ser in itertools.product(R if k < 3 else R[:3], repeat=k):
                for sh in itertools.product(SH if k < 3 else SH[:3], repeat=k):
                    for end in (END if k == 1 else END[:1] if k == 3 else [None, END[2]]):
                        net = [src + [[0]]]
                        for j in range(k):
                            net.append(ser[j] + [[j, j + 1]])
                            if sh[j] is not None:
                                net.append(sh[j] + [[j + 1]])
                        if end is not None:
                            net.append(end + [[k]])
                        yield dict(net=net, style='chain' if len(net) % 2 else 'star')


def cases_single(tier):
    loads = [['TR', 20.], ['TR', 50.], ['TC', 1e-4], ['TL', [0.2, 0.]], ['TL', [0.2, 3.]], ['TO', None], ['TS', None], ['TM', None]]
    srcs = [['V', 2.], ['I', 0.1], ['V', -1.], ['I', -3.]]
    for s in srcs:
        yield dict(net=[s + [[None]]], style='star')
        for l in loads:
            for flip in (0, 1):
                net = [s + [[0]], l + [[0]]]
                yield dict(net=net[::-1] if flip else net, style='star')
            for l2 in loads:
                for st in ('star', 'starlast', 'chain', 'conn', 'connlist', 'connmix'):
                    yield dict(net=[s + [[0]], l + [[0]], l2 + [[0]]], style=st)
        for ser in R:
            for flip in (0, 1):
                yield dict(net=[s + [[0]], ser + [[1, 0] if flip else [0, 1]]], style='star')
                for l in loads:
                    yield dict(net=[s + [[0]], ser + [[1, 0] if flip else [0, 1]], l + [[1]]], style='chain')


def cases_graph(tier):
    """every multigraph on 3 nodes, with up to 4 (5) series elements, grounded and driven in several places"""
    pairs = [(0, 1), (1, 2), (2, 0)]
    kinds = R[:3]
    maxe = 3 if tier == 'quick' else 4
    styles = ('star', 'starlast', 'chain', 'conn', 'connmix')
    cnt = 0
    for ne in range(2, maxe + 1):
        for sel in itertools.product(range(3), repeat=ne):
            if list(sel) != sorted(sel):
                continue
            for ks in itertools.product(range(len(kinds)), repeat=ne):
                for src in (['V', 2.], ['I', 0.1]):
                    cnt += 1
                    if tier == 'quick' and ne == 3 and src[0] == 'I' and len(set(sel)) == 3:
                        src2 = [['VB', 0.4, [1, 2]]]
                    else:
                        src2 = []
                    net = [src + [[0]]]
                    for s, k in zip(sel, ks):
                        net.append(kinds[k] + [list(pairs[s])])
                    net.append(['TR', 75., [1]])
                    net.append(['TC', 1e-4, [2]])
                    net.extend(src2)
                    yield dict(net=net, style=styles[cnt % 5], diff=[[[0, 0], [1, 1]]])


def cases_sources(tier):
    """several sources at once, floating voltage source"""
    loads = [['TR', 20.], ['TC', 1e-4], ['TL', [0.2, 3.]], ['TS', None]]
    for s1 in (['V', 2.], ['I', 0.1]):
        for s2 in (['V', -1.], ['I', .3]):
            for ser in R:
                for l in loads:
                    yield dict(net=[s1 + [[0]], ser + [[0, 1]], s2 + [[1]], l + [[0]], ['TR', 33., [1]]], style='conn')
    for l1 in loads + [['TO', None]]:
        for l2 in loads + [['TO', None]]:
            for ser in [None] + R:
                for fl in (0, 1):
                    net = [['VB', 1.5, [0, 1] if not fl else [1, 0]], l1 + [[0]], l2 + [[1]]]
                    if ser is not None:
                        net.append(ser + [[0, 1]])
                    yield dict(net=net, style='chain', diff=[[[0, 0], [0, 1]], [[1, 0], [2, 0]]])
                    net2 = net + [['I', 0.2, [0]]]
                    yield dict(net=net2, style='conn', diff=[[[0, 1], [0, 0]]])
                    # floating current source
                    net = [['IB', .2] + net[0][2:]] + net[1:]
                    yield dict(net=net, style='star', diff=[[[0, 0], [0, 1]], [[1, 0], [2, 0]]])
                    yield dict(net=net + [['V', 1., [1]]], style='chain')
                    # current pushed into a wire
                    net = [['VBI', .2] + net[0][2:]] + net[1:]
                    yield dict(net=net, style='conn', diff=[[[0, 0], [0, 1]]])
                    yield dict(net=net + [['V', 1., [2]], ['SR', 40., [1, 2]]], style='chain')


def cases_active(tier):
    """operational amplifiers in every single-amplifier feedback topology over the element palette"""
    zs = R[:3]
    ends = [['TR', 200.], ['TC', 1e-5], None]
    for zin, zf in itertools.product(zs, repeat=2):
        for load in ends:
            for src in (['V', 0.1], ['I', 0.01]):
                # inverting
                net = [src + [[0]], zin + [[0, 1]], zf + [[1, 2]], ['OA', 1e3, [3, 1, 2]], ['TS', None, [3]]]
                if load:
                    net.append(load + [[2]])
                yield dict(net=net, style='conn')
                # non inverting
                net = [src + [[3]], ['TR', 500., [3]], zf + [[1, 2]], zin + [[1, 0]], ['TS', None, [0]], ['OA', 1e3, [3, 1, 2]]]
                if load:
                    net.append(load + [[2]])
                yield dict(net=net, style='star')
                net = [src + [[0]], zin + [[0, 1]], zf + [[1, 2]], ['VA', 1e3, [1, 2]]]
                if load:
                    net.append(load + [[2]])
                yield dict(net=net, style='chain')
                # amplifier with input and output impedances, driven directly or within its feedback
                for Y, Z in ((1e-3, 0.), (0., 75.), (2e-2, 20.)):
                    net = [src + [[0]], zin + [[0, 1]], zf + [[1, 2]], ['VA', [30., Y, Z], [1, 2]]]
                    if load:
                        net.append(load + [[2]])
                    yield dict(net=net, style='conn')
                    net = [src + [[0]], zin + [[0, 1]], ['VA', [3., Y, Z], [1, 2]], zf + [[2, 3]]]
                    if load:
                        net.append(load + [[3]])
                    yield dict(net=net, style='star')
    for zin in zs:
        for load in ends:
            net = [['V', 0.1, [0]], zin + [[0, 1]], ['TR', 300., [1]], ['OA', 1e3, [1, 2, 2]]]
            if load:
                net.append(load + [[2]])
            yield dict(net=net, style='starlast')
            # open loop
            net = [['V', 0.1, [0]], ['V', 0.3, [1]], ['OA', 7., [0, 1, 2]]] + ([load + [[2]]] if load else [])
            yield dict(net=net, style='chain')


def cases_solver(tier):
    for c in itertools.islice(cases_ladder('quick'), 0, None, 1 if tier != 'quick' else 7):
        yield dict(c, solver='scisparse')


def cases_pairs(tier):
    """every ordered pair of terminals, also of the same node and the same terminal, between the probes of a meter"""
    for src in (['V', 2.], ['I', .1]):
        for a in R:
            for b in R[:1] if tier == 'quick' else R:
                net = [src + [[0]], a + [[0, 1]], ['TR', 75.] + [[1]], b + [[1, 2]], ['TC', 1e-4] + [[2]]]
                pp = [[e, p] for e, x in enumerate(net) for p in range(len(x[2]))]
                for style in ('star', 'chain', 'conn', 'connmix'):
                    yield dict(net=net, style=style, diff=[[x, y] for x in pp for y in pp])


FAMILIES = [
    Family('one-port', cases_single, run_net, "every source x every one or two loads x bonding styles x series elements in both directions"),
    Family('ladder', cases_ladder, run_net, "all ladder networks of 2 (3) stages over the R, L, C, cable palette and terminations"),
    Family('graph', cases_graph, run_net, "all 3-node multigraphs with up to 3 (4) series elements of R, L, C"),
    Family('sources', cases_sources, run_net, "several sources, floating sources"),
    Family('active', cases_active, run_net, "inverting, non-inverting, follower and open loop amplifier networks"),
    Family('sparse-solver', cases_solver, run_net, "ladder networks with the sparse numeric solver"),
    Family('pairs', cases_pairs, run_net, "differential voltages of all ordered pairs of terminals (same node and same terminal included) in 8 (32) networks in 4 bonding styles"),
]
