# -*- coding: utf-8 -*-
"""
Electrical noise: thermal equilibrium of passive networks, superposition of the sources of noise of any network.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import elecref
from mc.elecref import PORTS

ASSUMPTIONS = [
    "oracle for passive networks: Nyquist, the cross spectrum of two node voltages is 4 kB T Re Z_ab with Z the impedance matrix of the tableau",
    "oracle for all networks: superposition of 4 kB T R series voltages of every resistance and of the input noises of the amplifiers in the tableau; "
    "noise sources of an amplifier act in front of its port (voltages in series, currents into the node)",
    "ill posed networks (tableau condition number above 1e7, 1e12 with models of vendors' amplifiers) are not judged",
]

F_AC = [0.7, 13., 160.]


def V_noise(F):
    return 3e-18 * (1 + 10. / abs(F))


def I_noise(F):
    return 2e-22 * (1 + 40. / abs(F))


def Vout_noise(F):
    return 5e-17 + 0 * F


# the densities of one sided spectra are given for positive frequencies only, those of two sided ones for both signs.
SPELLINGS = {
    '1': ['one-sided', 'one sided', 'one', 'single-sided', 'single sided', 'single'],
    '2': ['two-sided', 'two sided', 'two', 'double-sided', 'double sided', 'double'],
}
SIDED = {('V', '1'): 'one-sided', ('V', '2'): 'two-sided', ('I', '1'): 'single', ('I', '2'): 'double'}


def construct(typ, val):
    import phasor.electronics as E
    from phasor.electronics import opamps
    if typ == 'MOA':
        from phasor.electronics.models import vendor_opamps
        return getattr(vendor_opamps, val)()
    if typ == 'NOA':
        return opamps.ImperfectOpAmp(gain_by_freq=lambda F: elecref.opamp_gain(F, val), V_spectrum_one_sided=V_noise, I_spectrum_one_sided=I_noise)
    if typ == 'NIA':
        class IA(opamps.ImperfectInAmp):
            def gain_by_freq(self, F):
                return elecref.opamp_gain(F, val)

            def V_spectrum_one_sided(self, F):
                return V_noise(F)

            def I_spectrum_one_sided(self, F):
                return I_noise(F)

            def Vout_spectrum_one_sided(self, F):
                return Vout_noise(F)
        return IA()
    return elecref.construct(typ, val)


def base_type(typ):
    return 'OA' if typ in ('NOA', 'NIA', 'MOA') else typ


def resistance(typ, val):
    if typ in ('TR', 'SR'):
        return val
    if typ in ('TL', 'SL'):
        return val[1]
    return 0


def inject(t, net, e, p, dv, di):
    """all node voltages and currents, when the port p of element e is in series with a voltage dv, and takes a current di less from its node
    than flows into its element"""
    N = t.N
    b = np.zeros(2 * N, dtype=complex)
    r0 = 0
    i = t.pidx[e, p]
    for k, (typ, val, nodes) in enumerate(net):
        for r in range(len(nodes)):
            if k == e:
                b[r0 + r] -= t.A[r0 + r, i] * dv + t.A[r0 + r, N + i] * di * 50.
        r0 += len(nodes)
    x = np.linalg.solve(t.A, b)
    return x[:N], x[N:] / 50.


def amp_sources(e, Sv, Si):
    return [(e, 1, 'V', Sv), (e, 0, 'I', Si), (e, 1, 'I', Si)]


def check(net, style, ctx, extra=(), spectra=1, johnson=True, F_AC=F_AC, cond=1e7):
    import phasor.electronics as E
    from phasor.electronics import noise
    import phasor.readouts as readouts
    import phasor.system as system
    rnet = [[base_type(x[0])] + x[1:] for x in net]
    tabs = [elecref.Tableau(rnet, f) for f in F_AC]
    if not all(t.ok or t.cond < cond for t in tabs):
        ctx.cls('ill posed: skipped')
        return
    kw = dict(sided_spectra=2) if spectra == 2 else {}
    if not johnson:
        kw['include_johnson_noise'] = False
    sys = system.BGSystem(F_AC=np.array(F_AC), **kw)
    objs = []
    for e, (typ, val, nodes) in enumerate(net):
        sys.insert(construct(typ, 0 if typ in ('V', 'I', 'VB', 'IB') else val), 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    elecref.bond_net(sys, objs, rnet, 'star' if style == 'pairs' else style)
    for k, (e, kind) in enumerate(extra):
        # noise added at a port by the user
        port = getattr(objs[e], PORTS[rnet[e][0]][0])
        sided = kind[2:] or SIDED[kind[0], kind[1]]
        if kind[0] == 'V':
            o = (E.VoltageFluctuation if style != 'pairs' else E.VoltageFluctuation2)(port=port, Vsq_Hz_by_freq=V_noise, sided=sided)
        else:
            o = (E.CurrentFluctuation if style != 'pairs' else noise.CurrentFluctuation2)(port=port, Isq_Hz_by_freq=I_noise, sided=sided)
        sys.insert(o, 'ns{0}'.format(k))
    pmap = {}
    seen = {}
    reads = []
    for e, (typ, val, nodes) in enumerate(rnet):
        for p, n in enumerate(nodes):
            port = getattr(objs[e], PORTS[typ][p])
            nm = 'V{0}_{1}'.format(e, p)
            sys.insert(E.VoltageReadout(terminal=port), 'r' + nm)
            pmap[nm] = getattr(sys, 'r' + nm).V.o
            reads.append((nm, lambda V, I, k=(e, p): V[tabs[0].pidx[k]]))
            if n not in seen:
                seen[n] = nm
            nm = 'I{0}_{1}'.format(e, p)
            sys.insert(E.CurrentReadout(terminal=port, direction='in'), 'r' + nm)
            pmap[nm] = getattr(sys, 'r' + nm).I.o
            reads.append((nm, lambda V, I, k=(e, p): I[tabs[0].pidx[k]]))
    ports = [(e, p) for e in range(len(rnet)) for p in range(len(rnet[e][2]))]
    for (e1, p1), (e2, p2) in itertools.combinations(ports, 2):
        if rnet[e1][2][p1] == rnet[e2][2][p2] and e1 + e2 > 1 or len(net) > 3 and p1 + p2 > 1:
            continue
        nm = 'D{0}_{1}_{2}_{3}'.format(e1, p1, e2, p2)
        sys.insert(E.VoltageReadout(terminal=getattr(objs[e1], PORTS[rnet[e1][0]][p1]),
                                    terminal_N=getattr(objs[e2], PORTS[rnet[e2][0]][p2])), 'r' + nm)
        pmap[nm] = getattr(sys, 'r' + nm).V.o
        reads.append((nm, lambda V, I, a=(e1, p1), b=(e2, p2): V[tabs[0].pidx[a]] - V[tabs[0].pidx[b]]))
    # the first and the last port under a second name as well
    for a in (0, len(reads) - 1):
        pmap[reads[a][0] + '_again'] = pmap[reads[a][0]]
        reads.append((reads[a][0] + '_again', reads[a][1]))
    sys.insert(readouts.NoiseReadout(port_map=pmap), 'N')
    sb = sys.symbols
    kT4 = 4 * sb.temp_K * sb.kB_J_K
    CSD = sys.N.CSD
    # superposition
    acc = [np.zeros((len(reads), len(reads)), dtype=complex) for f in F_AC]
    size = [np.zeros(len(reads)) for f in F_AC]
    parts = {}
    for j, f in enumerate(F_AC):
        t = tabs[j]
        src = []
        added = []
        for e, (typ, val, nodes) in enumerate(net):
            Rv = resistance(typ, val)
            if Rv and johnson:
                src.append((e, 0, 'V', kT4 * Rv))
            if typ in ('NOA', 'NIA'):
                src += amp_sources(e, V_noise(f), I_noise(f))
            if typ == 'MOA':
                Sv, Si = elecref.vendor_noise(val, f)
                src += amp_sources(e, Sv, Si)
            if typ == 'NIA':
                src.append((e, 2, 'V', Vout_noise(f)))
        for k, (e, kind) in enumerate(extra):
            added.append((e, 0, kind[0], {'V': V_noise, 'I': I_noise}[kind[0]](f) * (1 if kind[1] == '1' else 2)))
        for e, p, kind, S, name in [x + ('el{0}'.format(x[0]),) for x in src] + [x + ('ns{0}'.format(k),) for k, x in enumerate(added)]:
            # a spectrum over both signs of the frequency has half the density
            S = S / spectra
            V, I = inject(t, rnet, e, p, kind == 'V', kind == 'I')
            x = np.array([g(V, I) for nm, g in reads])
            part = S * np.outer(x, x.conj())
            parts.setdefault(name, [0] * len(F_AC))[j] += part
            acc[j] += part
            size[j] += S * abs(x)**2
            top = max(abs(V).max(), 50 * abs(I).max(), 1. if kind == 'V' else 50.)
            mx = np.array([top if nm[0] != 'I' else top / 50 for nm, g in reads])
            size[j] += S * mx**2
    for a, (na, _) in enumerate(reads):
        for b, (nb, _) in enumerate(reads):
            want = np.array([m[a, b] for m in acc])
            sc = np.array([(s[a] * s[b])**.5 for s in size])
            got = np.asarray(CSD.get((na, nb), 0)) + 0 * want
            ctx.require(bool(np.all(abs(got - want) <= 1e-5 * abs(want) + 1e-6 * sc)),
                        lambda: "cross spectrum of {0} and {1} of {2} {3}: got {4}, expected {5}".format(na, nb, net, list(extra), got, want))
            ctx.step()
    # what each source contributes
    names = [nm for nm, g in reads]
    by = {}
    for obj, d in sys.N.CSD_by_source.items():
        # of an element or a part of it
        tot = by.setdefault(obj.name_system.split('.')[0], {})
        for k, v in d.items():
            tot[k] = tot.get(k, 0) + v
    ctx.require(all(name in parts for name in by), lambda: "{0}: sources of noise {1}".format(net, sorted(by)))
    for name, m in parts.items():
        d = by.get(name, {})
        for j in range(len(F_AC)):
            want = m[j]
            got = np.array([[(np.asarray(d.get((a, b), 0)) + np.zeros(len(F_AC)))[j] for b in names] for a in names])
            ctx.require(bool(np.all(abs(got - want) <= 1e-5 * abs(want) + 1e-6 * np.outer(size[j], size[j])**.5)),
                        lambda: "contribution of {0} to the spectra of {1} {2} at {3} Hz: got {4}, expected {5}".format(
                            name, net, list(extra), F_AC[j], got, want))
        ctx.step()
    if not extra and johnson and all(x[0] in ('SR', 'SC', 'SL', 'CBL', 'TR', 'TC', 'TL', 'TO', 'TS', 'V', 'I', 'IB', 'VB') for x in net):
        # Nyquist: independent of the model of the sources of noise
        for na, nb in itertools.product(seen, repeat=2):
            want = []
            size_Z = []
            for f in F_AC:
                Z = []
                for n in (na, nb):
                    t = elecref.Tableau(rnet + [['I', 1., [n]]], f)
                    V, I = t.solve({len(rnet): 1.})
                    o = nb if n == na else na
                    e, p = [(e, p) for (e, p) in t.pidx if e < len(rnet) and rnet[e][2][p] == o][0]
                    Z.append(V[t.pidx[e, p]])
                want.append(kT4 / spectra * (Z[0] + Z[1].conj()) / 2)
                size_Z.append(abs(Z[0]) + abs(Z[1]))
            got = np.asarray(CSD.get((seen[na], seen[nb]), 0)) + 0 * np.array(want)
            s = [np.array([m[i] for m in size]) for i in (
                [nm for nm, _ in reads].index(seen[na]), [nm for nm, _ in reads].index(seen[nb]))]
            ctx.close(got, want, lambda: "thermal noise of nodes {0} {1} of {2}".format(na, nb, net), rtol=1e-5,
                      atol=1e-6 * max((s[0] * s[1]).max()**.5, kT4 * max(size_Z)))
            ctx.step()
    ctx.state(net, style, extra, spectra, johnson)
    ctx.trace()
    ctx.cls('{0} elements, {1}'.format(len(net), style))


def run(case, ctx):
    check(case['net'], case['style'], ctx, case.get('extra', ()), case.get('spectra', 1), case.get('johnson', True),
          **({k: case[k] for k in ('F_AC', 'cond') if k in case}))


Z1 = [['TR', 75.], ['TC', 1e-4], ['TL', [0.2, 1.]], ['TL', [0.1, 0.]]]
Z2 = [['SR', 30.], ['SC', 2e-4], ['SL', [0.05, 4.]], ['CBL', 3e6]]
G = [['V', 0], ['I', 0], ['TO', None]]


def cases_passive(tier):
    styles = ('star', 'chain', 'conn', 'starlast')
    cnt = 0
    for g in G:
        for a in Z1:
            yield dict(net=[g + [[0]], a + [[0]]], style='star')
            for b in Z1:
                cnt += 1
                yield dict(net=[g + [[0]], a + [[0]], b + [[0]]], style=styles[cnt % 4])
    for g in G:
        for s in Z2:
            for a, b in itertools.product([None] + Z1, repeat=2):
                cnt += 1
                for fl in ([0, 1], [1, 0]):
                    net = [g + [[0]], s + [fl]] + [x + [[n]] for n, x in enumerate((a, b)) if x]
                    yield dict(net=net, style=styles[cnt % 4])
    for g in G[:2]:
        for s1, s2 in itertools.product(Z2, repeat=2):
            for a, b in itertools.product([None] + Z1[:3], repeat=2):
                cnt += 1
                if tier == 'quick' and cnt % 2:
                    continue
                yield dict(net=[g + [[0]], s1 + [[0, 1]], s2 + [[1, 2]]] + [x + [[n + 1]] for n, x in enumerate((a, b)) if x], style=styles[cnt // 2 % 4])
                if tier != 'quick':
                    yield dict(net=[g + [[0]], s1 + [[0, 1]], s2 + [[2, 1]], ['SR', 11., [0, 2]]] + [x + [[n + 1]] for n, x in enumerate((a, b)) if x],
                               style=styles[(cnt // 2 + 1) % 4])


def cases_active(tier):
    zs = Z2[:3]
    ends = [['TR', 200.], ['TC', 1e-5], None]
    for zin, zf in itertools.product(zs, repeat=2):
        for load in ends:
            for amp in ('NOA', 'NIA'):
                l = [load + [[2]]] if load else []
                yield dict(net=[['V', 0, [0]], zin + [[0, 1]], zf + [[1, 2]], [amp, 1e3, [3, 1, 2]], ['TS', None, [3]]] + l, style='conn')
                yield dict(net=[['I', 0, [0]], zin + [[0, 1]], zf + [[1, 2]], [amp, 1e3, [3, 1, 2]], ['TR', 500., [3]]] + l, style='chain')
                yield dict(net=[['V', 0, [3]], ['TR', 500., [3]], zf + [[1, 2]], zin + [[1, 0]], ['TS', None, [0]], [amp, 1e3, [3, 1, 2]]] + l, style='star')
    for zin in zs:
        for load in ends:
            for amp in ('NOA', 'NIA'):
                l = [load + [[2]]] if load else []
                yield dict(net=[['V', 0, [0]], zin + [[0, 1]], ['TR', 300., [1]], [amp, 1e3, [1, 2, 2]]] + l, style='starlast')
                yield dict(net=[['TR', 20., [0]], zin + [[0, 1]], ['TR', 300., [1]], [amp, 7., [0, 1, 2]]] + l, style='chain')
    # two stages
    if tier != 'quick':
        for z in itertools.product(zs, repeat=4):
            yield dict(net=[['V', 0, [0]], z[0] + [[0, 1]], z[1] + [[1, 2]], ['NOA', 1e3, [7, 1, 2]], ['TS', None, [7]],
                            z[2] + [[2, 3]], z[3] + [[3, 4]], ['NIA', 1e3, [8, 3, 4]], ['TR', 40., [8]]], style='chain')


def cases_extra(tier):
    nets = [
        [['V', 0, [0]], ['TR', 75., [0]]],
        [['I', 0, [0]], ['TR', 75., [0]]],
        [['TR', 75., [0]], ['SR', 30., [0, 1]], ['TR', 20., [1]]],
        [['TL', [.2, 1.], [0]], ['SC', 2e-4, [1, 0]], ['TR', 20., [1]], ['TC', 1e-4, [1]]],
        [['V', 0, [0]], ['SL', [.05, 4.], [0, 1]], ['TR', 20., [1]]],
    ]
    for net in nets:
        for n in (1, 2):
            for ps in itertools.product(range(len(net)), repeat=n):
                for ks in itertools.product(('V1', 'V2', 'I1', 'I2'), repeat=n):
                    yield dict(net=net, style='star', extra=list(zip(ps, ks)))
        # elements which insert the noise at the port itself
        for p in range(len(net)):
            for k in ('V1', 'V2', 'I1', 'I2'):
                yield dict(net=net, style='pairs', extra=[[p, k]])
            for q in range(len(net)):
                for k, l in itertools.product(('V1', 'V2', 'I1', 'I2'), repeat=2):
                    if q == p or (k, l) in (('V1', 'I2'), ('I1', 'V1')):
                        yield dict(net=net, style='pairs', extra=[[p, k], [q, l]])
        # every way to write the kind of spectrum, alone and with another one
        for side in '12':
            for kind in 'VI':
                for word in SPELLINGS[side]:
                    yield dict(net=net, style='chain', extra=[[len(net) - 1, kind + side + word]])
                    if tier != 'quick':
                        for w2 in SPELLINGS['1'] + SPELLINGS['2']:
                            yield dict(net=net, style='chain', extra=[[len(net) - 1, kind + side + word], [0, 'V' + ('1' if w2 in SPELLINGS['1'] else '2') + w2]])


def cases_system(tier):
    """two sided readouts and systems without thermal noise"""
    for spectra, johnson in ((2, True), (1, False), (2, False)):
        for k, c in enumerate(itertools.islice(cases_passive(tier), 0, None, 29 if tier == 'quick' else 7)):
            yield dict(c, spectra=spectra, johnson=johnson, extra=[] if k % 2 else [[0, ('V1', 'V2', 'I1', 'I2')[k // 2 % 4]]])
        for c in itertools.islice(cases_active(tier), 0, None, 17 if tier == 'quick' else 5):
            yield dict(c, spectra=spectra, johnson=johnson)


F_VENDOR = [3., 5e3, 2e6]


def cases_vendor(tier):
    zs = [['SR', 1e3], ['SR', 30.], ['SC', 1e-9], ['SL', [2e-4, 40.]]]
    kw = dict(F_AC=F_VENDOR, cond=1e12)
    for k, (name, zin, zf) in enumerate(itertools.product(sorted(elecref.VENDOR), zs, zs)):
        amp = ['MOA', name]
        nets = [
            [['V', 0, [0]], zin + [[0, 1]], zf + [[1, 2]], amp + [[3, 1, 2]], ['TS', None, [3]], ['TR', 200., [2]]],
            [['I', 0, [0]], zin + [[0, 1]], zf + [[1, 2]], amp + [[3, 1, 2]], ['TR', 500., [3]], ['TC', 1e-8, [0]]],
            [['V', 0, [3]], ['TR', 500., [3]], zf + [[1, 2]], zin + [[1, 0]], ['TS', None, [0]], amp + [[3, 1, 2]]],
            [['V', 0, [0]], zin + [[0, 1]], ['TR', 300., [1]], amp + [[1, 2, 2]], zf + [[2, 4]], ['TR', 90., [4]]],
        ]
        if tier == 'quick':
            nets = nets[k % 2::2]
        for j, net in enumerate(nets):
            yield dict(net=net, style=('star', 'chain', 'conn', 'starlast')[(k // 3 + j) % 4], **kw)
    # the amplifier of a photodiode
    for F in itertools.combinations([.5, 40., 3e3, 2e5, 5e6, 7e7], 2 if tier == 'quick' else 3):
        yield dict(pd=1, F_AC=list(F))


def run_vendor(case, ctx):
    if 'net' in case:
        return run(case, ctx)
    from phasor.electronics.models import PDAmp
    import phasor.readouts as readouts
    import phasor.system as system
    F = np.array(case['F_AC'])
    sys = system.BGSystem(F_AC=F)
    sys.insert(PDAmp.PDTransimpedance(), 'pda')
    sys.insert(readouts.NoiseReadout(port_map=dict(V=sys.pda.VOutTrans.V.o)), 'N')
    kT4 = 4 * sys.symbols.temp_K * sys.symbols.kB_J_K
    A = elecref.opamp_gain(F, 'Ope_27')
    Sv, Si = elecref.vendor_noise('Ope_27', F)
    R = 10e3
    Y = 2j * np.pi * F * 20e-12 + 1 / R
    loop = 1 + A / R / Y
    ctx.close(sys.pda.VOutTrans_AC.AC_sensitivity, -A / Y / loop, "transimpedance of the photodiode amplifier", rtol=1e-5, atol=0)
    ctx.close(sys.N.CSD['V', 'V'], abs(A / loop)**2 * (Sv + (Si + kT4 / R) / abs(Y)**2), "noise of the photodiode amplifier", rtol=1e-5, atol=0)
    ctx.state(case)
    ctx.trace()
    ctx.step(2)
    ctx.cls('photodiode amplifier')


FAMILIES = [
    Family('passive', cases_passive, run, "all networks of up to 3 nodes: a source, up to 2 series elements in both directions and shunt elements at each node", chunk=8),
    Family('active', cases_active, run, "inverting, non inverting, follower and open loop circuits around noisy amplifiers (thorough: two stages)", chunk=4),
    Family('added', cases_extra, run, "one or two user defined voltage or current noises at every port of 5 networks, one and two sided, of both kinds of element", chunk=8),
    Family('vendor', cases_vendor, run_vendor, "the 7 models of vendors' amplifiers with 16 networks of feedback in two of 4 circuits (thorough: all 4) and the photodiode amplifier, at low, middle and radio frequencies", chunk=4),
    Family('system', cases_system, run, "every 29th passive and 17th active network (thorough: 7th, 5th) read out with two sided spectra, without thermal noise, and both, with and without noise added at a port", chunk=4),
]
