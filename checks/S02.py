# -*- coding: utf-8 -*-
"""
A system means the same however it is written down: order of elements, bonds and readouts, direction of bonds,
trivial elements in between, and several systems alive at once.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import zoo

ASSUMPTIONS = [
    "oracle: the same system built in its listed order",
    "elements which refer to other elements at construction keep their order",
]


def run(case, ctx):
    z, want = zoo.reference(case['zoo'])
    op = case.get('op')
    b = zoo.Built(z, el_order=case.get('el'), op_order=op, flips=case.get('flips', ()))
    zoo.same(ctx, b.all(), want, lambda: "system {0} with elements in order {1}, bonds and readouts in order {2}, bonds turned {3}".format(
        case['zoo'], case.get('el'), op, case.get('flips')))
    ctx.state(case)
    ctx.step(len(z.els) + zoo.n_ops(z))
    ctx.trace()
    ctx.cls(case['zoo'])


def swaps(n, tier, slow):
    idx = list(range(n))
    yield idx[::-1]
    if n > 2:
        for r in ([n // 2] if tier == 'quick' else range(1, n)):
            yield idx[r:] + idx[:r]
    pairs = [(i, i + 1) for i in range(n - 1)] if tier == 'quick' else list(itertools.combinations(range(n), 2))
    if tier == 'quick' and slow:
        pairs = []
    for i, j in pairs:
        p = list(idx)
        p[i], p[j] = p[j], p[i]
        yield p
    if tier != 'quick':
        # every operation moved to the front and to the back
        for i in idx:
            yield [i] + [j for j in idx if j != i]
            yield [j for j in idx if j != i] + [i]


def valid_ops(z, p):
    if not z.__dict__.get('late'):
        return p
    # readouts of readouts: keep the relative order of the readouts
    nb = len(z.bonds)
    rs = iter(sorted(x for x in p if x >= nb))
    return [x if x < nb else next(rs) for x in p]


def cases_order(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        seen = set()
        for p in swaps(zoo.n_ops(z), tier, z.slow):
            q = valid_ops(z, p)
            if tuple(q) in seen:
                continue
            seen.add(tuple(q))
            yield dict(zoo=zn, op=q)
        if not z.__dict__.get('fixed_order'):
            for p in swaps(len(z.els), tier, z.slow):
                yield dict(zoo=zn, el=p)


def cases_flip(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        n = len(z.bonds)
        for i in range(n):
            yield dict(zoo=zn, flips=[i])
        yield dict(zoo=zn, flips=list(range(n)))
        if tier != 'quick':
            for i, j in itertools.combinations(range(n), 2):
                yield dict(zoo=zn, flips=[i, j])


# -- trivial elements in a bond --------------------------------------------------------------------
def identities(kind):
    import phasor.optics as o
    import phasor.electronics as E
    import phasor.mechanical as M
    import phasor.signals as S
    return dict(
        po=[
            ('space', lambda s: o.Space(L_m=0), 'po_Fr', 'po_Bk'),
            ('mirror', lambda s: o.Mirror(T_hr=1), 'po_Bk', 'po_Fr'),
            ('magic', lambda s: o.MagicPD(), 'po_Fr', 'po_Bk'),
            ('rotator', lambda s: o.PolarizationRotator(rotate_deg=0), 'po_Fr', 'po_Bk'),
            ('am', lambda s: o.AM(), 'po_Bk', 'po_Fr'),
            ('pm', lambda s: o.PM(), 'po_Fr', 'po_Bk'),
        ],
        pe=[
            ('conn2', lambda s: E.Connection(N_ports=2), 'pe_0', 'pe_1'),
            ('conn1', lambda s: E.Connection(N_ports=3), 'pe_2', 'pe_0'),
            ('R', lambda s: E.SeriesResistor(resistance_Ohms=0), 'pe_A', 'pe_B'),
            ('L', lambda s: E.SeriesInductor(inductance_Henries=0), 'pe_B', 'pe_A'),
            ('cable', lambda s: E.Cable(length_ns=0), 'pe_A', 'pe_B'),
        ],
        pm=[
            ('conn2', lambda s: M.Connection(N_ports=2), 'pm_1', 'pm_0'),
            ('conn1', lambda s: M.Connection(N_ports=3), 'pm_2', 'pm_0'),
        ],
        ps=[
            ('gain', lambda s: S.SRationalFilter(gain=1), 'ps_In', 'ps_Out'),
            ('dist', lambda s: S.DistributionAmplifier(port_gains=dict(x=1, y=3)), 'ps_In', 'x'),
            ('sum', lambda s: S.SummingAmplifier(port_gains=dict(x=1, y=3)), 'x', 'ps_Out'),
        ],
    )[kind]


def kind_of(z, b):
    for end in b:
        p = end.split('.')[-1]
        if p.startswith('po_') or p in ('Bk_S', 'Bk_P') or (p[0] == 'P' and p[1:].isdigit()):
            return 'po'
        if p.startswith('pe_') or p in ('in_p', 'in_n', 'out'):
            return 'pe'
        if p.startswith('pm_') or p == 'Z':
            return 'pm'
    return 'ps'


def run_ident(case, ctx):
    z, want = zoo.reference(case['zoo'])
    n = [0]
    f, pa, pb = dict((x[0], x[1:]) for x in identities(case['kind']))[case['ident']]
    sysb = []

    def bond(a, b):
        sys = sysb[0]
        i = n[0]
        n[0] += 1
        if i not in case['at']:
            return sys.bond(a, b)
        sys.insert(f(sys), 'ident{0}'.format(i))
        e = getattr(sys, 'ident{0}'.format(i))
        if case['kind'] == 'ps' and not hasattr(a, 'o'):
            a, b = b, a
        sys.bond(a, getattr(e, pa))
        sys.bond(getattr(e, pb), b)
    b = zoo.Built(z, bond_f=bond, sys_hook=sysb.append)
    zoo.same(ctx, b.all(), want, lambda: "system {0} with a trivial {1} inside the bonds {2}".format(case['zoo'], case['ident'], case['at']))
    ctx.state(case)
    ctx.step(len(z.els) + zoo.n_ops(z) + 2)
    ctx.trace()
    ctx.cls('identity ' + case['kind'])


def cases_ident(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        kinds = {}
        for i, b in enumerate(z.bonds):
            kinds.setdefault(kind_of(z, b), []).append(i)
        for kind, idx in sorted(kinds.items()):
            for k, it in enumerate(identities(kind)):
                if (zn, it[0]) in (('hom', 'magic'),):
                    pass
                for n, i in enumerate(idx):
                    if tier == 'quick' and (z.slow or len(idx) > 6) and (n + k) % 3:
                        continue
                    yield dict(zoo=zn, kind=kind, ident=it[0], at=[i])
                if tier != 'quick':
                    for i, j in itertools.combinations(idx, 2):
                        yield dict(zoo=zn, kind=kind, ident=it[0], at=[i, j])


# -- several systems alive at once -----------------------------------------------------------------
def run_two(case, ctx):
    a, b = case['pair']
    za, wa = zoo.reference(a)
    zb, wb = zoo.reference(b)
    mode = case['mode']
    if mode == 'built together':
        A = zoo.Built(za)
        B = zoo.Built(zb)
        rb = B.all()
        ra = A.all()
    else:
        A = zoo.Built(za)
        B = zoo.Built(zb)
        ra, rb = {}, {}
        qa, qb = za.outputs(), zb.outputs()
        for i in range(max(len(qa), len(qb))):
            if i < len(qa):
                ra[qa[i]] = A.get(qa[i])
            if i < len(qb):
                rb[qb[i]] = B.get(qb[i])
    zoo.same(ctx, ra, wa, lambda: "system {0} while {1} is alive ({2})".format(a, b, mode))
    zoo.same(ctx, rb, wb, lambda: "system {0} while {1} is alive ({2})".format(b, a, mode))
    ctx.state(case)
    ctx.step(2)
    ctx.trace()
    ctx.cls('two systems')


def cases_two(tier):
    names = sorted(zoo.ALL)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if tier == 'quick' and j not in (i, (i + 1) % len(names)):
                continue
            for mode in ('built together', 'interleaved'):
                yield dict(pair=[a, b], mode=mode)


# ---- the ways to write the same construction
def ins_own(sys, name, el):
    setattr(sys.own, name, el)


def ins_item(sys, name, el):
    sys.own[name] = el


INS = dict(insert=lambda sys, name, el: sys.insert(el, name), own=ins_own, item=ins_item)
BONDS = dict(
    bond=None,
    port=lambda a, b: a.bond(b),
    seq='sequence',
    other=lambda a, b: b.bond(a),
)


def run_spelling(case, ctx):
    z, want = zoo.reference(case['zoo'])
    bf = BONDS[case['bond']]
    hold = []
    if bf == 'sequence':
        bf = lambda a, b: hold[0].bond_sequence(a, b)
    b = zoo.Built(z, ins=INS[case['ins']], bond_f=bf, sys_hook=hold.append)
    for name, f in z.els:
        el = getattr(b.sys, name)
        ctx.require(b.sys[name] is el and getattr(b.sys.own, name) is el and b.sys.own[name] is el and name in dir(b.sys), lambda: "element {0} of {1} by name".format(name, case))
        ctx.require(el.root is b.sys and el.parent is b.sys and el.name_system == name, lambda: "place of element {0} of {1}: {2}".format(name, case, el.name_system))
    zoo.same(ctx, b.all(), want, lambda: "system {0} written by {1} and {2}".format(case['zoo'], case['ins'], case['bond']))
    ctx.step(len(z.els) + len(z.bonds))
    ctx.state(case)
    ctx.trace()
    ctx.cls(case['ins'] + ' ' + case['bond'])


def cases_spelling(tier):
    for zn in sorted(zoo.ALL):
        for i, (a, b) in enumerate(itertools.product(sorted(INS), sorted(BONDS))):
            if tier == 'quick' and i not in (3, 5, 10):
                continue
            yield dict(zoo=zn, ins=a, bond=b)


# elements which may stand in a sequence of bonds: constructor, and where the sequence goes on from each port it enters
CHAIN = dict(
    optical=dict(
        mirror=("o.Mirror(T_hr=.3, L_hr=.01)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        oblique=("o.Mirror(T_hr=.3, L_hr=.01, AOI_deg=30)", ['po_FrA>po_BkA', 'po_FrB>po_BkB', 'po_BkA>po_FrA', 'po_BkB>po_FrB']),
        space=("o.Space(L_m=30., L_detune_m=2e-7)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        pm=("o.PM()", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        am=("o.AM()", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        ampm=("o.AMPM()", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        magic=("o.MagicPD()", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        crystal=("o.NonlinearCrystal(nlg=.01, length_mm=10, N_ode=3)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        rotator=("o.PolarizationRotator(rotate_deg=30)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        faraday=("o.FaradayRotator(rotate_deg=30)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        plate=("o.HalfWavePlate(rotate_deg=20)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        polarizing=("o.PolarizingMirror(mirror_S=o.Mirror(T_hr=.3), mirror_P=o.Mirror(T_hr=.6))", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
        splitter=("o.PolarizingMirror(mirror_S=o.Mirror(T_hr=.3), mirror_P=o.Mirror(T_hr=.6), AOI_deg=45)", ['po_FrA>po_BkA', 'po_FrB>po_BkB', 'po_BkA>po_FrA', 'po_BkB>po_FrB']),
        circulator=("o.OpticalCirculator()", ['P0>P1', 'P1>P2', 'P2>P0']),
        circulator4=("o.OpticalCirculator(N_ports=4)", ['P0>P1', 'P1>P2', 'P2>P3', 'P3>P0']),
        homodyne=("o.HiddenVariableHomodynePD(source_port=sys.own.las.po_Fr.o)", ['po_Fr>po_Bk', 'po_Bk>po_Fr']),
    ),
    electronics=dict(
        r=("E.SeriesResistor(resistance_Ohms=30.)", ['pe_A>pe_B', 'pe_B>pe_A']),
        c=("E.SeriesCapacitor(capacitance_Farads=1e-6)", ['pe_A>pe_B', 'pe_B>pe_A']),
        l=("E.SeriesInductor(inductance_Henries=1e-3)", ['pe_A>pe_B', 'pe_B>pe_A']),
        cable=("E.Cable(length_ns=3e4)", ['pe_A>pe_B', 'pe_B>pe_A']),
    ),
    mechanical=dict(
        k=("M.SeriesSpring(elasticity_N_m=30.)", ['pm_A>pm_B', 'pm_B>pm_A']),
        b=("M.SeriesDamper(resistance_Ns_m=.2)", ['pm_A>pm_B', 'pm_B>pm_A']),
        m=("M.SeriesMass(mass_kg=.01)", ['pm_A>pm_B', 'pm_B>pm_A']),
        cable=("M.Cable(delay_s=3e-5)", ['pm_A>pm_B', 'pm_B>pm_A']),
    ),
    signals=dict(
        gain=("sg.Gain(gain=3.)", ['ps_In>ps_Out']),
        integrator=("sg.Integrator()", ['ps_In>ps_Out']),
        pole=("sg.SRationalFilter(poles_r=(-100.,), gain=1e3)", ['ps_In>ps_Out']),
    ),
)


def seq_system(dom, seq, how):
    import phasor.optics as o
    import phasor.electronics as E
    import phasor.mechanical as M
    import phasor.signals as sg
    import phasor.readouts as ro
    import phasor.system as system
    sys = system.BGSystem(F_AC=np.array([30., 2e3]))
    own = sys.own
    ns = dict(o=o, E=E, M=M, sg=sg, sys=sys)
    if dom == 'optical':
        own.las = o.Laser(F=sys.F_carrier_1064, power_W=2.)
        own.drv = o.AM()
        own.end = o.PD()
        sys.bond(own.las.po_Fr, own.drv.po_Fr)
        first, last = own.drv.po_Bk, own.end.po_Fr
    elif dom == 'electronics':
        own.src = E.VoltageSource(V_DC=2.)
        own.end = E.TerminatorResistor(resistance_Ohms=70.)
        first, last = own.src.pe_A, own.end.pe_A
    elif dom == 'mechanical':
        own.src = M.DisplacementSource(d_DC=0.)
        own.end = M.TerminatorSpring(elasticity_N_m=70.)
        first, last = own.src.pm_A, own.end.pm_A
    else:
        own.src = sg.DistributionAmplifier(port_gains=dict(ps_Out=2.))
        own.end = sg.Gain(gain=5.)
        first, last = own.src.ps_Out, own.end.ps_In
    chain = []
    for i, (name, way) in enumerate(seq):
        el = eval(CHAIN[dom][name][0], ns)
        el = sys.insert(el, 'x%d' % i)
        pi, po = way.split('>')
        chain.append((getattr(el, pi), getattr(el, po)))
    if how == 'pairs':
        prev = first
        for a, b in chain:
            sys.bond(prev, a)
            prev = b
        sys.bond(prev, last)
    elif how == 'system':
        sys.bond_sequence(first, *([a for a, b in chain] + [last]))
    elif how == 'port':
        first.bond_sequence(*([a for a, b in chain] + [last]))
    elif how == 'parts':
        # a sequence up to the last element, and another one from there on
        sys.bond_sequence(first, *[a for a, b in chain])
        sys.bond_sequence(chain[-1][1], last)
    if dom == 'optical':
        own.r = ro.DCReadout(port=own.end.Wpd.o)
        own.ac = ro.ACReadout(portD=own.drv.Drv.i, portN=own.end.Wpd.o)
        return [own.r.DC_readout, own.ac.AC_sensitivity, own.ac.AC_PSD]
    if dom == 'electronics':
        own.r = E.VoltageReadout(terminal=own.end.pe_A)
        own.ac = ro.ACReadout(portD=own.src.V.i, portN=own.r.V.o)
        return [own.ac.AC_sensitivity, own.ac.AC_PSD]
    if dom == 'mechanical':
        own.r = M.ForceReadout(terminal=own.end.pm_A, direction='in')
        own.ac = ro.ACReadout(portD=own.src.d.i, portN=own.r.F.o)
        return [own.ac.AC_sensitivity, own.ac.AC_PSD]
    own.ac = ro.ACReadout(portD=own.src.ps_In.i, portN=own.end.ps_Out.o)
    return [own.ac.AC_sensitivity]


def run_sequence(case, ctx):
    want = seq_system(case['dom'], case['seq'], 'pairs')
    for how in case['how']:
        got = seq_system(case['dom'], case['seq'], how)
        for g, w in zip(got, want):
            w = np.asarray(w)
            ctx.close(g, w, lambda: "sequence {0} written by {1}".format(case['seq'], how), rtol=1e-8, atol=1e-10 * float(np.max(abs(w))))
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} {1}'.format(case['dom'], 'dark' if not np.any(abs(np.asarray(want[0])) > 1e-12) else 'lit'))


def cases_sequence(tier):
    for dom in sorted(CHAIN):
        ones = [(n, w) for n in sorted(CHAIN[dom]) for w in CHAIN[dom][n][1]]
        for x in ones:
            yield dict(dom=dom, seq=[x], how=['system', 'port', 'parts'])
        for i, (x, y) in enumerate(itertools.product(ones, ones)):
            if tier == 'thorough' or i % 5 == 0 or dom != 'optical':
                yield dict(dom=dom, seq=[x, y], how=['system'])


FAMILIES = [
    Family('order', cases_order, run, "all adjacent swaps, the reversal and a rotation of the bonds and readouts and of the elements of 14 systems (thorough: all swaps, rotations, and moves to either end)"),
    Family('direction', cases_flip, run, "every single bond (and pair of bonds in the thorough tier) written the other way around, and all at once"),
    Family('identity', cases_ident, run_ident, "every trivial element (zero length, unit transmission, zero impedance, unit gain, idle modulator or detector) inside every bond it fits (every third in the quick tier for the larger systems; pairs of bonds in the thorough tier)"),
    Family('two systems', cases_two, run_two, "neighbouring (all) pairs of systems built together, outputs read interleaved or in opposite order"),
    Family('spelling', cases_spelling, run_spelling, "elements added by insert, own.name and own[name] and found by each name; bonds written on the system or on either port, or as a sequence (quick: 3 of the 12 combinations)"),
    Family('sequence', cases_sequence, run_sequence, "every element of 27 kinds entered at every port, alone and in ordered pairs (quick: every fifth optical pair), in a sequence of bonds against the bonds one by one", chunk=8),
]
