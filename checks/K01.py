# -*- coding: utf-8 -*-
"""
Mechanical networks obey Newton's laws and the laws of their elements, and fluctuate as they dissipate.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import mechref
from mc.mechref import PORTS, DRIVES

ASSUMPTIONS = [
    "oracle: dense tableau (equal displacements and zero total force at every node, element laws) at every frequency; ill posed networks "
    "(tableau condition number above 1e7) are not judged",
    "oracle of the noise: fluctuation-dissipation theorem, 4 kB T |Im x/F| / omega, at the temperature and Boltzmann constant of the symbols of the system",
]

F_AC = [0.3, 2., 20.]
kT = None


def build(net, style, solver=None, values=True, **opts):
    import phasor.system as system
    F = np.array(F_AC)
    kw = dict() if solver is None else dict(solver_name=solver)
    sys = system.BGSystem(F_AC=F, **dict(kw, **opts))
    objs = []
    for e, (typ, val, nodes) in enumerate(net):
        v = val if values or typ not in DRIVES else 0
        sys.insert(mechref.construct(typ, v), 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    mechref.bond_net(sys, objs, net, style)
    return sys, objs


def check_net(net, style, ctx, solver=None, diff=(), ref=None):
    import phasor.mechanical as M
    import phasor.readouts as readouts
    tabs = [mechref.Tableau(ref or net, f) for f in F_AC]
    if not all(t.ok for t in tabs):
        ctx.cls('ill posed: skipped')
        return
    dc = mechref.Tableau(ref or net, 0.)
    sys, objs = build(net, style, solver, dc.ok)
    reads = []
    for e, (typ, val, nodes) in enumerate(net):
        for p in range(len(nodes)):
            port = getattr(objs[e], PORTS[typ][p])
            nm = 'R{0}_{1}'.format(e, p)
            sys.insert(M.DisplacementReadout(terminal=port), nm + 'd')
            reads.append((nm + 'd', lambda d, f, k=(e, p): d[tabs[0].pidx[k]]))
            sys.insert(M.ForceReadout(terminal=port, direction='in'), nm + 'F')
            reads.append((nm + 'F', lambda d, f, k=(e, p): f[tabs[0].pidx[k]]))
            if p == 0:
                sys.insert(M.ForceReadout(terminal=port, direction='out'), nm + 'O')
                reads.append((nm + 'O', lambda d, f, k=(e, p): -f[tabs[0].pidx[k]]))
    for (e1, p1), (e2, p2) in diff:
        nm = 'D{0}_{1}_{2}_{3}'.format(e1, p1, e2, p2)
        sys.insert(M.DisplacementReadout(
            terminal=getattr(objs[e1], PORTS[net[e1][0]][p1]),
            terminal_N=getattr(objs[e2], PORTS[net[e2][0]][p2])), nm)
        reads.append((nm, lambda d, f, a=(e1, p1), b=(e2, p2): d[tabs[0].pidx[a]] - d[tabs[0].pidx[b]]))
    ACs = []
    for e in tabs[0].src_rows:
        drv = getattr(objs[e], DRIVES[net[e][0]]).i
        for nm, f in reads:
            r = getattr(sys, nm)
            out = r.d.o if nm[-1] == 'd' or nm[0] == 'D' else r.F.o
            sys.insert(readouts.ACReadout(portD=drv, portN=out, include_noise=False), 'AC{0}_{1}'.format(e, nm))
            ACs.append((e, nm, f))
    if dc.ok:
        d, f_ = dc.solve(dict((e, net[e][1]) for e in dc.src_rows))
        sc = max(abs(d).max(), abs(f_).max(), 1e-3)
        for nm, f in reads:
            ctx.close(getattr(sys, nm).DC_readout, f(d, f_).real,
                      lambda: "DC reading {0} of {1}".format(nm, net), rtol=1e-6, atol=1e-7 * sc)
            ctx.step()
    refs = dict((e, [t.solve({e: 1.}) for t in tabs]) for e in tabs[0].src_rows)
    for e, nm, f in ACs:
        want = np.array([f(d, f_) for d, f_ in refs[e]])
        sc = np.array([max(abs(d).max(), abs(f_).max()) for d, f_ in refs[e]])
        got = getattr(sys, 'AC{0}_{1}'.format(e, nm)).AC_sensitivity
        bad = abs(np.asarray(got) - want) > 1e-6 * abs(want) + 1e-7 * sc
        ctx.require(not bad.any() and not np.isnan(got).any(),
                    lambda: "response of {0} to source {1} of {2}: got {3}, want {4}".format(nm, e, net, got, want))
        ctx.step(len(F_AC))
    ctx.state(net, style, solver)
    ctx.trace()
    ctx.cls('{0} elements {1} nodes {2} dc={3}'.format(len(net), len(set(n for x in net for n in x[2])), style, dc.ok))


def check_noise(net, style, ctx, opts={}):
    """displacement noise of every node of a passive network in thermal equilibrium"""
    import phasor.mechanical as M
    import phasor.readouts as readouts
    nodes = sorted(set(n for x in net for n in x[2] if n is not None))
    tabs = dict()
    for n in nodes:
        for f in F_AC:
            tabs[n, f] = mechref.Tableau(net + [['FS', 0., [n]]], f)
            if not tabs[n, f].ok:
                ctx.cls('noise: ill posed: skipped')
                return
    sys, objs = build(net, style, **opts)
    pmap = {}
    reads = []
    node_read = {}
    t0 = mechref.Tableau(net, F_AC[0], limit=np.inf)
    for e, (typ, val, nds) in enumerate(net):
        for p, n in enumerate(nds):
            port = getattr(objs[e], PORTS[typ][p])
            for kind, cls in (('d', M.DisplacementReadout), ('F', M.ForceReadout)):
                nm = '{0}{1}_{2}'.format(kind, e, p)
                if kind == 'd' and n in node_read and e % 2:
                    continue
                sys.insert(cls(terminal=port) if kind == 'd' else cls(terminal=port, direction='in'), 'r' + nm)
                pmap[nm] = getattr(getattr(sys, 'r' + nm), kind).o
                reads.append((nm, kind == 'F', t0.pidx[e, p]))
            node_read.setdefault(n, 'd{0}_{1}'.format(e, p))
    sys.insert(readouts.NoiseReadout(port_map=pmap), 'N')
    CSD = sys.N.CSD
    sb = sys.symbols
    # a spectrum over both signs of the frequency has half the density
    kT4 = 4 * sb.temp_K * sb.kB_J_K * opts.get('include_johnson_noise', True) / opts.get('sided_spectra', 1)
    # equilibrium: cross spectra of the displacements of the nodes
    for n in nodes:
        for m in nodes:
            want = []
            size = []
            for f in F_AC:
                t = tabs[n, f]
                d, f_ = t.solve({len(net): 1.})
                k = [t.pidx[e, p] for (e, p) in t.pidx if e < len(net) and net[e][2][p] == m][0]
                want.append(kT4 / (2 * np.pi * f) * -d[k].imag)
                size.append(kT4 / (2 * np.pi * f) * abs(d).max())
            want = np.array(want)
            got = np.asarray(CSD.get((node_read[n], node_read[m]), 0)) + 0 * want
            ctx.require(bool(np.all(abs(got - want) <= 1e-5 * abs(want) + 1e-7 * np.array(size))),
                        lambda: "noise of nodes {0} {1} of {2}: got {3}, expected {4}".format(n, m, net, got, want))
            ctx.step(len(F_AC))
    # superposition of the thermal force of every dissipative element
    acc = []
    size = []
    for f in F_AC:
        t = mechref.Tableau(net, f, limit=np.inf)
        if np.linalg.cond(t.A) > 1e8:
            break
        tot = np.zeros((len(reads), len(reads)), dtype=complex)
        sz = np.zeros(len(reads))
        r0 = 0
        for e, (typ, val, nds) in enumerate(net):
            if typ in ('K', 'D', 'SK', 'SD'):
                S = kT4 * complex(mechref.stiffness(typ, val, f)).imag / (2 * np.pi * f)
                b = np.zeros(2 * t.N, dtype=complex)
                row = r0 + len(nds) - 1
                b[row] = -1 / t.scale[row]
                x = np.linalg.solve(t.A, b)
                v = np.array([x[t.N * F + k] for nm, F, k in reads])
                tot += S * np.outer(v, v.conj())
                mx = [max(abs(x[:t.N]).max(), abs(x[t.N:]).max()) for i in (0, 1)]
                sz += np.array([S * mx[int(F)]**2 for nm, F, k in reads])
            r0 += len(nds)
        acc.append(tot)
        size.append(sz)
    else:
        for a, (na, _, _) in enumerate(reads):
            for b, (nb, _, _) in enumerate(reads):
                want = np.array([m[a, b] for m in acc])
                sc = np.array([(s[a] * s[b])**.5 for s in size])
                got = np.asarray(CSD.get((na, nb), 0)) + 0 * want
                ctx.require(bool(np.all(abs(got - want) <= 1e-5 * abs(want) + 1e-6 * sc)),
                            lambda: "cross spectrum of {0} and {1} of {2}: got {3}, expected {4}".format(na, nb, net, got, want))
                ctx.step(len(F_AC))
    ctx.state('noise', net, style, opts)
    ctx.trace()
    ctx.cls('noise: {0} elements'.format(len(net)))


SPELLINGS = {
    '1': ['one-sided', 'one sided', 'one', 'single-sided', 'single sided', 'single'],
    '2': ['two-sided', 'two sided', 'two', 'double-sided', 'double sided', 'double'],
}


def d_noise(F):
    return 3e-6 * (1 + 4. / abs(F))


def run_added(case, ctx):
    """displacement noise in series with a port, over the thermal noise; a two sided density counts for both signs of the frequency"""
    import phasor.mechanical as M
    import phasor.readouts as readouts
    net, style = case['net'], case['style']
    tabs = [mechref.Tableau(net, f) for f in F_AC]
    if not all(t.ok for t in tabs):
        ctx.cls('noise: ill posed: skipped')
        return
    res = []
    for extra in ((), case['extra']):
        sys, objs = build(net, style, **case.get('opts', {}))
        for k, (e, p, side, word) in enumerate(extra):
            sys.insert(M.DisplacementFluctuation(port=getattr(objs[e], PORTS[net[e][0]][p]), dsq_Hz_by_freq=d_noise, sided=word), 'ns{0}'.format(k))
        pmap = {}
        for e, (typ, val, nds) in enumerate(net):
            for p, n in enumerate(nds):
                port = getattr(objs[e], PORTS[typ][p])
                sys.insert(M.DisplacementReadout(terminal=port), 'd{0}_{1}'.format(e, p))
                sys.insert(M.ForceReadout(terminal=port, direction='in'), 'F{0}_{1}'.format(e, p))
                pmap['d', e, p] = getattr(sys, 'd{0}_{1}'.format(e, p)).d.o
                pmap['F', e, p] = getattr(sys, 'F{0}_{1}'.format(e, p)).F.o
        names = dict(('{0}{1}_{2}'.format(*k), k) for k in pmap)
        sys.insert(readouts.NoiseReadout(port_map=dict((nm, pmap[k]) for nm, k in names.items())), 'N')
        res.append(sys.N.CSD)
    offs = []
    r = 0
    for e, (typ, val, nds) in enumerate(net):
        offs.append(r)
        r += len(nds)
    reads = sorted(names)
    for j, f in enumerate(F_AC):
        t = tabs[j]
        want = np.zeros((len(reads), len(reads)), dtype=complex)
        size = np.zeros(len(reads))
        for e, p, side, word in case['extra']:
            i = t.pidx[e, p]
            b = np.zeros(2 * t.N, dtype=complex)
            for row in range(offs[e], offs[e] + len(net[e][2])):
                b[row] = -t.A[row, i]
            x = np.linalg.solve(t.A, b)
            v = np.array([x[t.N * (names[nm][0] == 'F') + t.pidx[names[nm][1:]]] for nm in reads])
            S = d_noise(f) * (1 if side == '1' else 2) / case.get('opts', {}).get('sided_spectra', 1)
            want += S * np.outer(v, v.conj())
            size += S * np.array([max(abs(x[:t.N] if nm[0] == "d" else x[t.N:]).max(), 1) for nm in reads])**2
        for a, na in enumerate(reads):
            for b, nb in enumerate(reads):
                g = [np.asarray(c.get((na, nb), 0)) + np.zeros(len(F_AC)) for c in res]
                got = g[1][j] - g[0][j]
                ctx.require(abs(got - want[a, b]) <= 1e-6 * (abs(want[a, b]) + (size[a] * size[b])**.5) + 1e-9 * abs(g[0][j]),
                            lambda: "added noise of {0} and {1} at {2} Hz in {3}: got {4}, expected {5}".format(na, nb, f, case, got, want[a, b]))
                ctx.step()
    ctx.state('added', case)
    ctx.trace()
    ctx.cls('added noise')


def cases_added(tier):
    nets = [
        [['D', .8, [0]], ['M', 2., [0]]],
        [['K', [5., .1], [0]], ['D', 4., [0]]],
        [['K', [5., None], [0]], ['SD', 1.5, [0, 1]], ['M', .3, [1]]],
        [['D', 4., [0]], ['SK', [30., .02], [1, 0]], ['TO', None, [1]]],
        [['M', .3, [0]], ['SK', [30., None], [0, 1]], ['TS', None, [1]], ['D', .1, [0]]],
    ]
    sides = [(s, w) for s in '12' for w in SPELLINGS[s]]
    for net in nets:
        ports = [(e, p) for e in range(len(net)) for p in range(len(net[e][2]))]
        for s, w in sides:
            yield dict(net=net, style='star', extra=[[0, 0, s, w]])
        for n in (1, 2):
            for ps in itertools.product(ports, repeat=n):
                for sd in itertools.product((('1', 'one-sided'), ('2', 'two-sided')), repeat=n):
                    for st in ('star', 'conn') if tier != 'quick' else ('star',):
                        yield dict(net=net, style=st, extra=[list(p) + list(s) for p, s in zip(ps, sd)])


R = [['SK', [30., None]], ['SD', 1.5], ['SM', .7], ['CBL', .02], ['SK', [4., .02]]]
SH = [None, ['M', 2.], ['K', [5., None]], ['D', .8], ['K', [3., .05]]]
END = [None, ['TO', None], ['TS', None], ['K', [2., None]], ['M', .3]]
SRC = (['FS', 2.], ['DS', .1])


def run_net(case, ctx):
    check_net(case['net'], case['style'], ctx, solver=case.get('solver'), diff=case.get('diff', ()))


def run_string(case, ctx):
    net = case['net']
    if not mechref.Tableau(net, 0.).ok:
        ctx.cls('no static solution: skipped')
        return
    wrong = [['STRW' if x[0] == 'STR' else x[0]] + x[1:] for x in net]
    try:
        check_net(net, case['style'], ctx)
    except Violation as v:
        # known: the characteristic impedance lacks its frequency dependence
        try:
            check_net(net, case['style'], ctx, ref=wrong)
        except Violation:
            raise v
        raise Violation(v.message, sig='string-characteristic-mobility')
    except Exception as e:
        # known: static strings are rigid, so that some networks lose their static solution
        if mechref.Tableau(wrong, 0.).ok:
            raise
        raise Violation("no static solution of {0}: {1!r}".format(net, e), sig='string-characteristic-mobility')


def run_noise(case, ctx):
    check_noise(case['net'], case['style'], ctx, case.get('opts', {}))


def cases_single(tier):
    loads = [['K', [20., None]], ['K', [.5, .1]], ['D', 4.], ['M', .2], ['TO', None], ['TS', None]]
    srcs = [['FS', 2.], ['DS', .1], ['FS', -1.], ['DS', -3.]]
    for s in srcs:
        yield dict(net=[s + [[None]]], style='star')
        for l in loads:
            for flip in (0, 1):
                net = [s + [[0]], l + [[0]]]
                yield dict(net=net[::-1] if flip else net, style='star')
            for l2 in loads:
                for st in ('star', 'starlast', 'chain', 'conn', 'connlist'):
                    yield dict(net=[s + [[0]], l + [[0]], l2 + [[0]]], style=st)
        for ser in R:
            for flip in (0, 1):
                yield dict(net=[s + [[0]], ser + [[1, 0] if flip else [0, 1]]], style='star')
                for l in loads:
                    yield dict(net=[s + [[0]], ser + [[1, 0] if flip else [0, 1]], l + [[1]]], style='chain',
                               diff=[[[0, 0], [1, 0 if flip else 1]], [[2, 0], [0, 0]]])


def cases_ladder(tier):
    n = 2 if tier == 'quick' else 3
    cnt = 0
    for k in range(2, n + 1):
        for src in SRC:
            for ser in itertools.product(R if k < 3 else R[:3], repeat=k):
                for sh in itertools.product(SH[:4] if k < 3 else SH[:3], repeat=k):
                    for end in (END[:1] if k == 3 else [None, END[2]]):
                        cnt += 1
                        if tier == 'quick' and cnt % 2 and end is None:
                            continue
                        net = [src + [[0]]]
                        for j in range(k):
                            net.append(ser[j] + [[j, j + 1]])
                            if sh[j] is not None:
                                net.append(sh[j] + [[j + 1]])
                        if end is not None:
                            net.append(end + [[k]])
                        yield dict(net=net, style='chain' if len(net) % 2 else 'star')


def cases_graph(tier):
    """every multigraph on 3 nodes, with up to 3 (4) series elements, grounded and driven in several places"""
    pairs = [(0, 1), (1, 2), (2, 0)]
    kinds = R[:3]
    maxe = 3 if tier == 'quick' else 4
    styles = ('star', 'starlast', 'chain', 'conn')
    cnt = 0
    for ne in range(2, maxe + 1):
        for sel in itertools.combinations_with_replacement(range(3), ne):
            for ks in itertools.product(range(len(kinds)), repeat=ne):
                for src in SRC:
                    cnt += 1
                    net = [src + [[0]]]
                    for s, k in zip(sel, ks):
                        net.append(kinds[k] + [list(pairs[s])])
                    net.append(['K', [7., None], [1]])
                    net.append(['M', .1, [2]])
                    if cnt % 3 == 0:
                        net.append(['FB', .4, [1, 2]])
                    yield dict(net=net, style=styles[cnt % 4], diff=[[[0, 0], [1, 1]]])


def cases_sources(tier):
    loads = [['K', [20., None]], ['D', 4.], ['M', .2], ['TS', None], ['TO', None]]
    for s1 in SRC:
        for s2 in (['FS', -1.], ['DS', .3]):
            for ser in R:
                for l in loads[:4]:
                    yield dict(net=[s1 + [[0]], ser + [[0, 1]], s2 + [[1]], l + [[0]], ['K', [33., None], [1]]], style='conn')
    for l1 in loads:
        for l2 in loads:
            for ser in [None] + R:
                for bal in ('DB', 'FJ', 'FB'):
                    for fl in (0, 1):
                        net = [[bal, 1.5, [0, 1] if not fl else [1, 0]], l1 + [[0]], l2 + [[1]]]
                        if ser is not None:
                            net.append(ser + [[0, 1]])
                        yield dict(net=net, style='chain', diff=[[[0, 0], [0, 1]], [[1, 0], [2, 0]]])
                    yield dict(net=net + [['FS', 0.2, [0]]], style='conn', diff=[[[0, 1], [0, 0]]])


def cases_lever(tier):
    """Moment1D and the three dimensional lever: every port driven, every lever"""
    loads = [['K', [2., None]], ['M', .4], ['D', .6]]
    for x in (.8, -1.5, 3.):
        for ld in itertools.product(loads, repeat=3):
            for drv in range(3):
                for src in (SRC if tier != 'quick' else SRC[:1]):
                    net = [['M1', x, [0, 1, 2]]] + [l + [[n]] for n, l in enumerate(ld)] + [src + [[drv]]]
                    yield dict(net=net, style=('star', 'chain', 'conn')[drv])
    vecs = [v for v in itertools.product((-.7, 0., .4), repeat=3) if any(v)]
    for v in vecs if tier != 'quick' else vecs[::3]:
        for drv in range(9):
            net = [['X', list(v), list(range(9))]] + [['K', [1. + .3 * i, None], [i]] for i in range(9)]
            net.append(['FS', 1., [drv]])
            net.append(['M', .2 + .1 * drv, [8 - drv]])
            yield dict(net=net, style=('star', 'chain', 'conn')[drv % 3])
    # two levers on the same body
    for v1 in vecs[::5]:
        for v2 in vecs[1::7]:
            net = [['X', list(v1), list(range(9))], ['X', list(v2), [9, 10, 11, 3, 4, 5, 6, 7, 8]]]
            net += [['K', [1. + .3 * i, None], [i]] for i in range(12)] + [['M', .5, [i]] for i in range(3, 9)]
            net.append(['FS', 1., [2]])
            yield dict(net=net, style='chain')


def cases_string(tier):
    for v in ([.5, 20., .03], [2., 5., .2], [1., 1., 1.]):
        for l in [['K', [3., None]], ['D', 2.], ['M', .5], ['TS', None], ['TO', None]]:
            for src in SRC:
                yield dict(net=[src + [[0]], ['STR', v, [0, 1]], l + [[1]]], style='star')


def cases_noise(tier):
    one = [['M', 2.], ['K', [5., None]], ['K', [5., .02]], ['K', [5., .6]], ['D', .8], ['TO', None]]
    ser = [['SK', [30., None]], ['SK', [4., .02]], ['SK', [4., .5]], ['SD', 1.5], ['SM', .7]]
    for n in range(1, 4):
        for ls in itertools.combinations_with_replacement(one, n):
            for st in ('star', 'conn') if n > 2 else ('star',):
                yield dict(net=[l + [[0]] for l in ls], style=st)
    for l0 in one:
        for l1 in one:
            for s in ser:
                for fl in ([0, 1], [1, 0]):
                    yield dict(net=[l0 + [[0]], s + [fl], l1 + [[1]]], style='chain')
            for s, s2 in itertools.combinations_with_replacement(ser, 2):
                yield dict(net=[l0 + [[0]], s + [[0, 1]], s2 + [[1, 0]], l1 + [[1]]], style='star')
                if tier != 'quick' or l0 != l1:
                    yield dict(net=[l0 + [[0]], s + [[0, 1]], s2 + [[1, 2]], l1 + [[2]]], style='chain')
    for s in itertools.product(ser, repeat=3) if tier != 'quick' else ():
        for l in one[:4]:
            yield dict(net=[l + [[0]], s[0] + [[0, 1]], ['M', .4, [1]], s[1] + [[1, 2]], s[2] + [[0, 2]], ['M', 1.1, [2]]], style='chain')


def cases_noise_system(tier):
    """two sided readouts and systems without thermal noise"""
    for opts in (dict(sided_spectra=2), dict(include_johnson_noise=False), dict(sided_spectra=2, include_johnson_noise=False)):
        for c in itertools.islice(cases_noise(tier), 0, None, 19 if tier == 'quick' else 5):
            yield dict(c, opts=opts)
        for c in itertools.islice(cases_added(tier), 0, None, 19 if tier == 'quick' else 5):
            yield dict(c, opts=opts)


def run_noise_system(case, ctx):
    (run_added if 'extra' in case else run_noise)(case, ctx)


# ------------------------------------------------------------------------------------------ three axes
XYZ = dict(
    M=('XYZMass', 'mass_kg', 'M', lambda v: v),
    K=('XYZTerminatorSpring', 'elasticity_N_m', 'K', lambda v: [v, None]),
    D=('XYZTerminatorDamper', 'resistance_Ns_m', 'D', lambda v: v),
    TO=('XYZTerminatorOpen', None, 'TO', lambda v: None),
    TS=('XYZTerminatorShorted', None, 'TS', lambda v: None),
)


def run_xyz(case, ctx):
    """elements bonded through their three-axis ports are three independent networks"""
    import phasor.mechanical as M
    import phasor.readouts as readouts
    import phasor.system as system
    from phasor.mechanical import xyz
    els = case['els']
    sys = system.BGSystem(F_AC=np.array(F_AC))
    for e, (typ, val) in enumerate(els):
        cls, par, _, _ = XYZ[typ]
        kw = {} if par is None else {par: val}
        sys.insert(getattr(xyz, cls)(**kw), 'el{0}'.format(e))
    obj = [getattr(sys, 'el{0}'.format(e)) for e in range(len(els))]
    for a, b in zip(obj[:-1], obj[1:]) if case['style'] == 'chain' else [(obj[0], o) for o in obj[1:]]:
        a.pm_A.bond(b.pm_A)
    axes = 'XYZ'
    for k, ax in enumerate(axes):
        sys.insert(M.ForceSource(), 'F' + ax)
        if k % 2:
            sys.bond(getattr(obj[0].pm_A, ax), getattr(sys, 'F' + ax).pm_A)
        else:
            sys.bond(getattr(sys, 'F' + ax).pm_A, getattr(obj[0], ax).pm_A)
        for e in range(len(els)):
            sys.insert(M.DisplacementReadout(terminal=getattr(obj[e].pm_A, ax)), 'd{0}{1}'.format(ax, e))
    for a in axes:
        for b in axes:
            for e in range(len(els)):
                sys.insert(readouts.ACReadout(portD=getattr(sys, 'F' + a).F.i, portN=getattr(sys, 'd{0}{1}'.format(b, e)).d.o,
                                              include_noise=False), 'A{0}{1}{2}'.format(a, b, e))
    for k, a in enumerate(axes):
        net = [[XYZ[t][2], XYZ[t][3](None if v is None else (v if np.isscalar(v) else v[k])), [0]] for t, v in els] + [['FS', 0., [0]]]
        tabs = [mechref.Tableau(net, f) for f in F_AC]
        if not all(t.ok for t in tabs):
            ctx.cls('ill posed: skipped')
            return
        want = np.array([t.solve({len(els): 1.})[0][0] for t in tabs])
        for e in range(len(els)):
            for b in axes:
                got = getattr(sys, 'A{0}{1}{2}'.format(a, b, e)).AC_sensitivity
                ctx.close(got, want if a == b else 0 * want, lambda: "{0} motion from {1} force of {2}".format(b, a, els),
                          rtol=1e-6, atol=1e-9)
                ctx.step(len(F_AC))
    ctx.state(els, case['style'])
    ctx.trace()
    ctx.cls('xyz {0}'.format(len(els)))


def cases_xyz(tier):
    pal = [['M', .5], ['M', [.2, .4, .9]], ['K', 3.], ['K', [1., 2., 7.]], ['D', [.3, .1, .8]], ['TO', None], ['TS', None]]
    for n in (1, 2, 3):
        for els in itertools.product(pal, repeat=n):
            if n == 3 and (els[0] > els[1] if tier != 'quick' else pal.index(els[0]) >= pal.index(els[1])):
                continue
            yield dict(els=list(els), style=('star', 'chain')[sum(map(pal.index, els)) % 2])


# ------------------------------------------------------------------------------------------ transducer
def run_pzt(case, ctx):
    """piezo: free displacement d V, stiffness k, free capacitance C, reciprocal"""
    import phasor.electronics as E
    import phasor.mechanical as M
    import phasor.readouts as readouts
    import phasor.system as system
    from phasor.transducers import PZT
    from mc import elecref
    C, k, d = case['C'], case['k'], case['d']
    F = np.array(F_AC)
    sys = system.BGSystem(F_AC=F)
    sys.insert(PZT.PZTMountedGrounded(capacitance_F=C, k_N_m=k, **case['scale']), 'pzt')
    if case['eload'] is not None:
        sys.insert(elecref.construct(*case['eload']), 'eload')
        sys.bond(sys.pzt.pe_A, sys.eload.pe_A)
    if case['mload'] is not None:
        sys.insert(mechref.construct(*case['mload']), 'mload')
        sys.bond(sys.mload.pm_A, sys.pzt.pm_Z)
    if case['V']:
        sys.insert(E.VoltageSource(), 'src')
        drv = sys.src.V.i
    else:
        sys.insert(E.CurrentSource(), 'src')
        drv = sys.src.ps_In.i
    sys.bond(sys.pzt.pe_A, sys.src.pe_A)
    if case['D']:
        sys.insert(M.DisplacementSource(), 'msrc')
        mdrv = sys.msrc.d.i
    else:
        sys.insert(M.ForceSource(), 'msrc')
        mdrv = sys.msrc.F.i
    sys.bond(sys.msrc.pm_A, sys.pzt.pm_Z)
    sys.insert(E.VoltageReadout(terminal=sys.pzt.pe_A), 'rV')
    sys.insert(E.CurrentReadout(terminal=sys.pzt.pe_A, direction='in'), 'rI')
    sys.insert(M.DisplacementReadout(terminal=sys.pzt.pm_Z), 'rd')
    sys.insert(M.ForceReadout(terminal=sys.pzt.pm_Z, direction='in'), 'rF')
    outs = [sys.rV.V.o, sys.rI.I.o, sys.rd.d.o, sys.rF.F.o]
    for a, p in enumerate([drv, mdrv]):
        for b, o in enumerate(outs):
            sys.insert(readouts.ACReadout(portD=p, portN=o, include_noise=False), 'A{0}{1}'.format(a, b))
    want = np.zeros((2, 4, len(F)), dtype=complex)
    for j, f in enumerate(F):
        s = 2j * np.pi * f
        # unknowns V, I, x, F (into the piezo)
        rows = [[0, 0, -k, 1], [-s * (C - k * d * d), 1, -s * k * d, 0]]
        rows[0][0] = k * d
        el = 0
        if case['eload'] is not None:
            (cv, ci), = elecref.laws(case['eload'][0], case['eload'][1], f)[0]
            el = -cv[0] / ci[0]
        ml = 0
        if case['mload'] is not None:
            ml = mechref.stiffness(case['mload'][0], case['mload'][1], f)
        # node: source current = I + el V
        rows.append([1, 0, 0, 0] if case['V'] else [el, 1, 0, 0])
        rows.append([0, 0, 1, 0] if case['D'] else [0, 0, ml, 1])
        A = np.array(rows, dtype=complex)
        sc = np.diag([1, abs(s) * C, 1, k])
        if np.linalg.cond((A @ sc) / abs(A @ sc).max(axis=1)[:, None]) > 1e6:
            ctx.cls('ill posed: skipped')
            return
        for a in range(2):
            b = np.zeros(4)
            b[2 + a] = 1
            want[a, :, j] = np.linalg.solve(A, b)
    unit = abs(np.array([1, 2 * np.pi * F[0] * C, d, k * d]))
    for a in range(2):
        size = max(abs(want[a] / unit[:, None]).max(), 0)
        for b in range(4):
            got = getattr(sys, 'A{0}{1}'.format(a, b)).AC_sensitivity
            ctx.close(got, want[a, b], lambda: "piezo {0}: response of {1} to {2}".format(case, 'VIxF'[b], 'em'[a]), rtol=1e-6,
                      atol=1e-9 * size * unit[b])
            ctx.step(len(F))
    ctx.state(case)
    ctx.trace()
    ctx.cls('piezo')


def cases_pzt(tier):
    for C, k, d in ((1e-3, 5., .003), (2e-4, .3, -.02), (1e-2, 40., 0.01)):
        for scale in (dict(d_eff_m_V=d), dict(full_swing_um=d * 1e6 * 150, max_voltage_V=150.)):
            for eload in (None, ['TR', 75.], ['TC', 1e-3]):
                for mload in (None, ['M', .2], ['K', [2., None]], ['D', .5]):
                    for V in (0, 1):
                        for D in (0, 1):
                            yield dict(C=C, k=k, d=d, scale=scale, eload=eload, mload=mload, V=V, D=D)


def cases_solver(tier):
    for c in itertools.islice(cases_ladder('quick'), 0, None, 3 if tier != 'quick' else 11):
        yield dict(c, solver='scisparse')


def cases_pairs(tier):
    """every ordered pair of terminals, also of the same node and the same terminal, between the probes of a meter"""
    for src in (['FS', .2], ['DS', .1]):
        for a in (['SK', [5., .02]], ['SD', 3.], ['SM', 2.]):
            for b in (['SK', [7., .01]],) if tier == 'quick' else (['SK', [7., .01]], ['SD', 2.], ['SM', .7]):
                net = [src + [[0]], a + [[0, 1]], ['D', .7] + [[1]], b + [[1, 2]], ['K', [2., .02]] + [[2]]]
                pp = [[e, p] for e, x in enumerate(net) for p in range(len(x[2]))]
                for style in ('star', 'chain', 'conn', 'connmix'):
                    yield dict(net=net, style=style, diff=[[x, y] for x in pp for y in pp])


HTTS_CHANGES = dict(d_pitch=.0035, dd_pitch=-.001, dz_spring=.3, d_yaw=.05, d_yaw_top=.05, dd_yaw=.004, COM_kg=.2, L_pend_m=.3)


def htts_model(F, d_pitch=.0014 * 1.5, dd_pitch=.0014, dz_spring=0., d_yaw=.076, d_yaw_top=.03, dd_yaw=0., COM_kg=.0885, L_pend_m=.14, Ld_pend_m=.001):
    """responses of a suspended rigid body from its energies, with the joints as constraints"""
    w = 2 * np.pi * F
    m, g = COM_kg, 9.81
    unit = np.eye(12)
    # body and clamp: positions and rotations
    c, th, p, ph = unit[0:3], unit[3:6], unit[6:9], unit[9:12]

    def at(base, rot, r):
        return base + mechref.cross_matrix(r) @ rot
    yl, yr = -d_yaw / 2 + dd_yaw / 2, d_yaw / 2 + dd_yaw / 2
    left, left2 = at(c, th, [yl, d_pitch + dd_pitch / 2, 0]), at(p, ph, [yl, dd_pitch / 2, 0])
    right, right2 = at(c, th, [yr, d_pitch - dd_pitch / 2, 0]), at(p, ph, [yr, -dd_pitch / 2, 0])
    u, sv, vh = np.linalg.svd(np.concatenate([left - left2, right - right2]))
    N = vh[(sv > 1e-12 * sv[0]).sum():].T
    D = np.zeros((12, 12), complex)
    kL, kR = m / 2 * g / (L_pend_m - Ld_pend_m / 2), m / 2 * g / (L_pend_m + Ld_pend_m / 2)
    damp = 1j * w * np.array([.01, .01, .004])
    terms = [
        (c, -w**2 * m), (th, -w**2 * np.array([30677e-9, 37696e-9, 64087e-9])), (p, -w**2 * 1e-9), (ph, -w**2 * 1e-9),
        (left, np.array([kL, 65.8, kL + dz_spring]) + damp), (right, np.array([kR, 65.8, kR - dz_spring]) + damp),
        (left[2] - right[2], -(1 - d_yaw_top / d_yaw) * (kL + kR) / 4), (c[2] - p[2], g * m / d_pitch),
    ]
    pts = dict(L=c[2], P=th[0], Y=th[1])
    for n, sx, sy in (('UL', -1, 1), ('UR', 1, 1), ('LL', -1, -1), ('LR', 1, -1)):
        f = at(c, th, [sx * .0241, sy * .0251, -.0382])
        terms.append((f, -w**2 * 1e-9))
        pts[n] = f[2]
    for row, k in terms:
        row = np.atleast_2d(row)
        D = D + row.T @ np.diag(np.broadcast_to(k, len(row))) @ row
    R = N.T @ D @ N
    d = 1 / abs(np.diag(R))**.5
    G = (N * d) @ np.linalg.inv(R * np.outer(d, d)) @ (N * d).T
    return {(i, o): pts[o] @ G @ pts[i] for i in pts for o in pts}


def cases_htts(tier):
    names = sorted(HTTS_CHANGES)
    for n in range(3 if tier == 'quick' else len(names) + 1):
        for k, ch in enumerate(itertools.combinations(names, n)):
            yield dict(change=list(ch), F=[[.3, 1., 7.], [.05, 2.1, 30.]][k % 2])


def run_htts(case, ctx):
    from phasor.mechanical.models import HTTS
    import phasor.system as system
    kw = {k: HTTS_CHANGES[k] for k in case['change']}
    F = np.array(case['F'])
    sys = system.BGSystem(F_AC=F)
    sys.insert(HTTS.HTTS(**kw), 'htts')
    ms = [htts_model(f, **kw) for f in F]
    for i, o in ms[0]:
        want = np.array([m[i, o] for m in ms])
        got = getattr(sys.htts.RAC, i + '_' + o).AC_sensitivity
        ctx.close(got, want, lambda: "suspension with {0}: {1} to {2}".format(kw, i, o), rtol=1e-6,
                  atol=1e-8 * (max(abs(m[i, i]) for m in ms) * max(abs(m[o, o]) for m in ms))**.5)
        ctx.step(len(F))
    ctx.state(case['change'], case['F'])
    ctx.trace()
    ctx.cls('suspension {0} parameters'.format(len(kw)))


FAMILIES = [
    Family('one-port', cases_single, run_net, "every source x every one or two loads x bonding styles x series elements in both directions"),
    Family('ladder', cases_ladder, run_net, "all ladder networks of 2 (3) stages over springs, dampers, masses, inerters, delay lines and terminations"),
    Family('graph', cases_graph, run_net, "all 3-node multigraphs with up to 3 (4) series elements"),
    Family('sources', cases_sources, run_net, "several sources, sources between two bodies, every pair of loads"),
    Family('levers', cases_lever, run_net, "one dimensional and three dimensional levers: every port driven, all loads, all lever vectors over {-.7, 0, .4}"),
    Family('strings', cases_string, run_string, "stretched strings with every termination"),
    Family('noise', cases_noise, run_noise, "thermal noise of all networks of up to 3 one-ports, and two nodes with 1 or 2 series elements"),
    Family('added', cases_added, run_added, "one or two user defined displacement noises in series with every port of 5 networks, all ways to state the kind of spectrum"),
    Family('system', cases_noise_system, run_noise_system, "every 19th (thorough: 5th) network of noise and added, read out with two sided spectra, without thermal noise, and both", chunk=4),
    Family('suspension', cases_htts, run_htts, "model of a tip tilt suspension against the energies of a constrained rigid body, up to 2 (all) of 8 parameters changed, 49 responses", chunk=4),
    Family('xyz', cases_xyz, run_xyz, "three-axis elements bonded through their three-axis ports, up to 3 elements"),
    Family('piezo', cases_pzt, run_pzt, "piezo actuator with every electrical and mechanical load and source"),
    Family('sparse-solver', cases_solver, run_net, "ladder networks with the sparse numeric solver"),
    Family('pairs', cases_pairs, run_net, "differential displacements of all ordered pairs of terminals (same node and same terminal included) in 6 (18) networks in 4 bonding styles"),
]
