# -*- coding: utf-8 -*-
"""
Arrays of frequencies or parameters give, entry by entry, what separate systems give.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import zoo

ASSUMPTIONS = [
    "oracle: one system per entry of the arrays, solved with scalars",
]
FREQS = [3., 40., 700., 11.]
_single = {}


def single(zn, F, params):
    key = (zn, F, tuple(sorted(params.items())))
    if key not in _single:
        z = zoo.ALL[zn]()
        _single[key] = zoo.Built(z, F_AC=F, params=params).all()
    return _single[key]


def run(case, ctx):
    zn = case['zoo']
    z = zoo.ALL[zn]()
    F = np.array(case['F'])
    params = dict((k, np.array(v)) for k, v in case.get('params', {}).items())
    got = zoo.Built(z, F_AC=F if F.shape else float(F), params=params).all()
    arrays = [F] + [params[k] for k in sorted(params)]
    shape = np.broadcast(*arrays).shape if len(arrays) > 1 else F.shape
    full = [np.broadcast_to(a, shape) for a in arrays]
    out = {}
    for k, v in got.items():
        try:
            out[k] = np.broadcast_to(np.asarray(v), shape)
        except ValueError:
            raise Violation("system {0}, F {1}, params {2}: output {3} has shape {4}, expected {5}".format(zn, case['F'], case.get('params'), k, np.shape(v), shape))
    want = {}
    for idx in np.ndindex(*shape):
        w = single(zn, float(full[0][idx]), dict((k, float(full[1 + i][idx])) for i, k in enumerate(sorted(params))))
        for k in w:
            want.setdefault(k, np.zeros(shape, dtype=complex))[idx] = np.squeeze(np.asarray(w[k])[..., 0] if np.asarray(w[k]).shape else w[k])
        ctx.step()
    zoo.same(ctx, out, want, lambda: "system {0} with F {1} and params {2}".format(zn, case['F'], case.get('params')))
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} dimensions'.format(len(shape)))


# not arrays: frequencies of the structure, and poles and zeros of filters
SCALAR = dict(vco=['F'], pdh=['Fm'], loop=['a'])
OTHER = [1.25, .6]


def cases(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        yield dict(zoo=zn, F=FREQS)
        yield dict(zoo=zn, F=FREQS[::-1])
        yield dict(zoo=zn, F=[FREQS[0]])
        yield dict(zoo=zn, F=[FREQS[:2], FREQS[2:]])
        yield dict(zoo=zn, F=[FREQS[0], FREQS[0]])
        if tier != 'quick':
            yield dict(zoo=zn, F=[[f] for f in FREQS])
            for a, b in itertools.permutations(FREQS, 2):
                yield dict(zoo=zn, F=[a, b])
        ps = [p for p in sorted(z.params) if p not in SCALAR.get(zn, ())]
        for p in ps:
            v = z.params[p]
            yield dict(zoo=zn, F=FREQS[0], params={p: [v, v * OTHER[0], v * OTHER[1]]})
            yield dict(zoo=zn, F=FREQS[:2], params={p: [[v], [v * OTHER[1]]]})
            yield dict(zoo=zn, F=FREQS[:2], params={p: [v * OTHER[0], v]})
            if tier != 'quick':
                yield dict(zoo=zn, F=[[f] for f in FREQS], params={p: [v, v * OTHER[0], v * OTHER[1]]})
                yield dict(zoo=zn, F=FREQS[0], params={p: [[v, v * OTHER[0]], [v * OTHER[1], v]]})
        pairs = list(itertools.combinations(ps, 2))
        for n, (p, q) in enumerate(pairs):
            if tier == 'quick' and z.slow:
                continue
            v, w = z.params[p], z.params[q]
            yield dict(zoo=zn, F=FREQS[0], params={p: [[v], [v * OTHER[0]]], q: [[w, w * OTHER[1]]]})
            if tier != 'quick':
                yield dict(zoo=zn, F=[[[f]] for f in FREQS[:2]], params={p: [[v], [v * OTHER[0]]], q: [[w, w * OTHER[1]]]})




# ---- every numeric parameter of every element as an array, with entries at which couplings vanish or become one
OPT = dict(
    M=dict(T=[.3, 0., 1.], L=[.1, 0., .2], Lt=[0., .1, .2], phase_deg=[0., 25., -60.]),
    M4=dict(T=[.3, 0., 1.], L=[0., .1, .2], Lt=[.1, 0., .2], phase_deg=[0., 25., -60.], BS=[.1, 0., .2], bs_deg=[0., 30., 80.]),
    ROT=dict(deg=[0., 30., 90.]), FAR=dict(deg=[90., 20., 0.]), HWP=dict(deg=[45., 10., 0.]), QWP=dict(deg=[0., 90., 20.]),
    PBS=dict(sd=[0., .1, 1.], rd=[.05, 0., .1]),
    SP=dict(L=[2e5, 0., 5e4], d=[0., 1e-7, 2e-7]),
    LAS=dict(P=[0., 2., 1.], phase_deg=[0., 40., 90.]),
    PMIR=dict(TS=[0., .3, .5], TP=[.4, 1., 0.], L=[0., .1, .05]),
)
BASE = dict(M=dict(T=.4), M4=dict(T=.4, AOI=30), ROT=dict(deg=20.), FAR=dict(deg=20.), HWP=dict(deg=20.), QWP=dict(deg=20.), SP=dict(L=1e5), LAS=dict(P=1.), PMIR=dict(TS=.2, TP=.7), TerminatorInductor=dict(resistance_Ohms=3.))


def opt_net(typ, par):
    """the element inside a driven cavity with another polarization mixed in"""
    els = [['LAS', dict(P=1.5, pol='P', phase_deg=10)], ['M', dict(T=.2)], ['SP', dict(L=1e5, d=1e-7)], ['ROT', dict(deg=30)], ['M', dict(T=.35, flip=True)]]
    links = [[[0, 'po_Fr'], [1, 'po_Bk']], [[1, 'po_Fr'], [2, 'po_Fr']]]
    if typ == 'LAS':
        els[0][1].update(par)
        par = None
    if par is not None:
        els.append([typ, par])
        a, b = ('po_Fr', 'po_Bk') if typ not in ('M4', 'PBS') else ('po_BkA', 'po_BkB') if typ == 'M4' else ('po_FrA', 'po_BkA')
        links += [[[2, 'po_Bk'], [5, a]], [[5, b], [3, 'po_Fr']]]
        if typ == 'M4':
            els.append(['LAS', dict(P=1.)])
            links.append([[5, 'po_FrA'], [6, 'po_Fr']])
    else:
        links.append([[2, 'po_Bk'], [3, 'po_Fr']])
    links.append([[3, 'po_Bk'], [4, 'po_Fr']])
    return dict(elements=els, links=links)


def opt_all(typ, par, F):
    from mc import optref
    import phasor.readouts as ro
    par = dict((k, np.array(v) if isinstance(v, list) else v) for k, v in par.items())
    net, det = optref.with_detectors(opt_net(typ, par), 1)
    sys, objs = optref.build(net, F)
    out = {}
    mirrors = [e for e, (t, p) in enumerate(net['elements']) if t in ('M', 'M4')]
    for i, (m, p) in enumerate(det):
        sys.insert(ro.DCReadout(port=objs[m].Wpd.o), 'dc{0}'.format(i))
        sys.insert(ro.NoiseReadout(portN=objs[m].Wpd.o), 'nz{0}'.format(i))
        for e in mirrors:
            sys.insert(ro.ACReadout(portD=objs[e].Z.d.o, portN=objs[m].Wpd.o, include_noise=False), 'ac{0}_{1}'.format(i, e))
    for i in range(len(det)):
        out['d{0}.DC'.format(i)] = getattr(sys, 'dc{0}'.format(i)).DC_readout
        out['d{0}.PSD'.format(i)] = getattr(sys, 'nz{0}'.format(i)).CSD['R', 'R']
        for e in mirrors:
            out['d{0}_{1}.AC'.format(i, e)] = getattr(sys, 'ac{0}_{1}'.format(i, e)).AC_sensitivity
    return out


ELE = dict(
    SeriesResistor=dict(resistance_Ohms=[0., 75., 1e3]),
    SeriesCapacitor=dict(capacitance_Farads=[1e-5, 0., 1e-3]),
    SeriesInductor=dict(inductance_Henries=[0., .1, 1.]),
    TerminatorResistor=dict(resistance_Ohms=[75., 0., 1e3]),
    TerminatorCapacitor=dict(capacitance_Farads=[0., 1e-5, 1e-3]),
    TerminatorInductor=dict(inductance_Henries=[.1, 0., 1.]),
    Cable=dict(length_ns=[0., 1e5, 1e6]),
    VoltageSource=dict(V_DC=[0., 2., -1.]),
    CurrentSource=dict(I_DC=[.1, 0., -1.]),
    VoltageSourceBalanced=dict(V_DC=[0., 2., -1.]),
    CurrentSourceBalanced=dict(I_DC=[.1, 0., -1.]),
)
MEC = dict(
    SeriesSpring=dict(elasticity_N_m=[1e3, 40., 7e3]),
    TerminatorSpring=dict(elasticity_N_m=[1e3, 0., 50.]),
    TerminatorDamper=dict(resistance_Ns_m=[0., 4., 9.]),
    Mass=dict(mass_kg=[.3, 0., 1.]),
    Cable=dict(delay_s=[0., .02, .1], Loss=[0., .1, .3]),
    DisplacementSource=dict(d_DC=[0., .1, -.2]),
    ForceSource=dict(F_DC=[2., 0., -1.]),
    ForceSourceBalanced=dict(F_DC=[0., 2., 1.]),
    DisplacementSourceBalanced=dict(d_DC=[.1, 0., 1.]),
)


def net_all(dom, typ, par, F):
    import phasor.system as system
    import phasor.readouts as ro
    par = dict((k, np.array(v) if isinstance(v, list) else v) for k, v in par.items())
    sys = system.BGSystem(F_AC=F)
    if dom == 'ele':
        import phasor.electronics as E
        pr = 'pe_'
        src, load, drv = E.VoltageSource(V_DC=2.), E.TerminatorResistor(resistance_Ohms=20.), 'V'
        conn = E.Connection
        mk = lambda t: E.VoltageReadout(terminal=t)
        rp = 'V'
        el = getattr(E, typ)(**par)
    else:
        import phasor.mechanical as E
        pr = 'pm_'
        src, load, drv = E.ForceSource(F_DC=2.), E.TerminatorSpring(elasticity_N_m=150.), 'F'
        if typ == 'ForceSourceBalanced':
            src, drv = E.DisplacementSource(d_DC=.4), 'd'
        conn = E.Connection
        mk = lambda t: E.DisplacementReadout(terminal=t)
        rp = 'd'
        el = getattr(E, typ)(**par)
    sys.insert(src, 'src')
    sys.insert(load, 'load')
    sys.insert(el, 'el')
    sys.insert(E.SeriesResistor(resistance_Ohms=33.) if dom == 'ele' else E.SeriesSpring(elasticity_N_m=70.), 'r1')
    if typ.startswith('Series') or typ == 'Cable' or typ.endswith('Balanced'):
        sys.bond(getattr(sys.src, pr + 'A'), getattr(sys.r1, pr + 'A'))
        sys.bond(getattr(sys.r1, pr + 'B'), getattr(sys.el, pr + 'A'))
        sys.bond(getattr(sys.el, pr + 'B'), getattr(sys.load, pr + 'A'))
        terms = [getattr(sys.load, pr + 'A'), getattr(sys.r1, pr + 'B')]
    else:
        sys.insert(conn(N_ports=3), 'n')
        sys.bond(getattr(sys.src, pr + 'A'), getattr(sys.r1, pr + 'A'))
        sys.bond(getattr(sys.r1, pr + 'B'), getattr(sys.n, pr + '0'))
        if typ in ('VoltageSource', 'DisplacementSource'):
            sys.insert(E.SeriesResistor(resistance_Ohms=60.) if dom == 'ele' else E.SeriesSpring(elasticity_N_m=90.), 'r2')
            sys.bond(getattr(sys.n, pr + '1'), getattr(sys.r2, pr + 'A'))
            sys.bond(getattr(sys.r2, pr + 'B'), getattr(sys.el, pr + 'A'))
        else:
            sys.bond(getattr(sys.n, pr + '1'), getattr(sys.el, pr + 'A'))
        sys.bond(getattr(sys.n, pr + '2'), getattr(sys.load, pr + 'A'))
        terms = [getattr(sys.load, pr + 'A'), getattr(sys.n, pr + '1')]
    out = {}
    for i, t in enumerate(terms):
        sys.insert(mk(t), 'm{0}'.format(i))
    for i, t in enumerate(terms):
        p = getattr(getattr(sys, 'm{0}'.format(i)), rp).o
        sys.insert(ro.ACReadout(portD=getattr(sys.src, drv).i, portN=p), 'ac{0}'.format(i))
    for i, t in enumerate(terms):
        out['m{0}.DC'.format(i)] = getattr(sys, 'm{0}'.format(i)).DC_readout
        out['m{0}.AC'.format(i)] = getattr(sys, 'ac{0}'.format(i)).AC_sensitivity
        if dom == 'ele':
            out['m{0}.PSD'.format(i)] = getattr(sys, 'ac{0}'.format(i)).noise.CSD['R', 'R']
    return out


SIG = dict(
    gain=dict(g=[0., 1., -2.]),
    loop=dict(g=[0., .5, -2.], h=[.3, 0., 1.]),
    filt=dict(gain=[0., 1., 2.], delay=[0., .01, .1]),
    noise=dict(n=[0., 1., .3]),
)


def sig_all(dom, typ, par, F):
    import phasor.system as system
    import phasor.readouts as ro
    import phasor.signals as S
    par = dict((k, np.array(v) if isinstance(v, list) else v) for k, v in par.items())
    sys = system.BGSystem(F_AC=F)
    sys.insert(S.SummingAmplifier(port_gains=dict(a=1., b=par.get('h', .4))), 'sum')
    if typ == 'filt':
        sys.insert(S.SRationalFilter(poles_r=(-20.,), zeros_r=(-3.,), gain=par.get('gain', 1.), delay_s=par.get('delay', 0.)), 'g')
    else:
        sys.insert(S.DistributionAmplifier(port_gains=dict(ps_Out=par.get('g', .5), y=1.)), 'g')
    if typ == 'noise':
        sys.insert(S.WhiteNoise(magnitude_ASD=par.get('n', 1.), sided='one', port=sys.sum.a), 'wn')
    sys.insert(S.DistributionAmplifier(port_gains=dict(x=1., y=.5)), 'd')
    sys.bond(sys.sum.ps_Out, sys.g.ps_In)
    sys.bond(sys.g.ps_Out, sys.d.ps_In)
    sys.bond(sys.d.x, sys.sum.b)
    sys.insert(ro.ACReadout(portD=sys.sum.a.i, portN=sys.d.y.o), 'ac')
    out = {'r.AC': sys.ac.AC_sensitivity}
    if typ == 'noise':
        out['r.PSD'] = sys.ac.noise.CSD['R', 'R']
    return out


def run_elements(case, ctx):
    dom, typ, par, F = case['dom'], case['typ'], case['par'], case['F']
    f = dict(opt=lambda t, p, F: opt_all(t, p, F), ele=lambda t, p, F: net_all('ele', t, p, F),
             mec=lambda t, p, F: net_all('mec', t, p, F), sig=lambda t, p, F: sig_all('sig', t, p, F))[dom]
    Fa = np.array(F)
    arrs = dict((k, np.array(v)) for k, v in par.items() if isinstance(v, list))
    shape = np.broadcast(Fa, *arrs.values()).shape
    got = f(typ, par, Fa if Fa.shape else float(Fa))
    out, want = {}, {}
    for k, v in got.items():
        try:
            out[k] = np.broadcast_to(np.asarray(v), shape)
        except ValueError:
            raise Violation("{0}: output {1} has shape {2}, expected {3}".format(case, k, np.shape(v), shape))
    Fb = np.broadcast_to(Fa, shape)
    ab = dict((k, np.broadcast_to(a, shape)) for k, a in arrs.items())
    for idx in np.ndindex(*shape):
        p1 = dict(par)
        for k in ab:
            p1[k] = float(ab[k][idx])
        w = f(typ, p1, float(Fb[idx]))
        for k in w:
            want.setdefault(k, np.zeros(shape, dtype=complex))[idx] = np.squeeze(np.asarray(w[k]))
        ctx.step()
    # at each index the scale is that of the output itself
    zoo.same(ctx, out, want, lambda: "{0}".format(case), rtol=1e-4, floor=1e-2)
    ctx.state(case)
    ctx.trace()
    ctx.cls(dom)


def cases_elements(tier):
    tabs = [('opt', OPT), ('ele', ELE), ('mec', MEC), ('sig', SIG)]
    for dom, tab in tabs:
        for typ in sorted(tab):
            base = BASE.get(typ, {})
            ps = sorted(tab[typ])
            for p in ps:
                v = tab[typ][p]
                yield dict(dom=dom, typ=typ, par=dict(base, **{p: v[:2]}), F=3.)
                yield dict(dom=dom, typ=typ, par=dict(base, **{p: v[1::-1]}), F=[40., 3.])
                yield dict(dom=dom, typ=typ, par=dict(base, **{p: [[x] for x in v]}), F=[3., 40.])
                if tier != 'quick':
                    for w in itertools.permutations(v):
                        yield dict(dom=dom, typ=typ, par=dict(base, **{p: list(w)}), F=3.)
                    yield dict(dom=dom, typ=typ, par=dict(base, **{p: [v, v[::-1]]}), F=[[3.], [40.]])
            for p, q in itertools.combinations(ps, 2):
                v, w = tab[typ][p], tab[typ][q]
                if dom == 'opt' and typ in ('M', 'M4', 'PMIR'):
                    v, w = [x for x in v if x != 1.], [x for x in w if x != 1.]
                    if {p, q} == {'T', 'Lt'}:
                        v, w = ([.3, .25, .4], w) if p == 'T' else (v, [.3, .25, .4])
                yield dict(dom=dom, typ=typ, par=dict(base, **{p: v[:2], q: w[1::-1]}), F=3.)
                if tier != 'quick':
                    yield dict(dom=dom, typ=typ, par=dict(base, **{p: [[x] for x in v], q: w}), F=3.)


# ---- systems solved by iteration: the convergence of one index must not stop the others
def iter_all(typ, vals, F):
    import phasor.system as system
    import phasor.optics as o
    import phasor.readouts as ro
    v = np.array(vals) if isinstance(vals, list) else vals
    s = system.BGSystem(F_AC=F)
    P, nlg, T = 1., .05, .2
    if typ == 'power':
        P = v
    elif typ == 'T':
        T = v
    s.insert(o.Laser(F=s.F_carrier_1064, power_W=P), 'L')
    s.insert(o.NonlinearCrystal(nlg=nlg, length_mm=10, N_ode=10), 'k')
    s.insert(o.Mirror(T_hr=T), 'm1')
    s.insert(o.Mirror(T_hr=.05), 'm2')
    s.insert(o.PD(), 'R')
    s.bond(s.L.po_Fr, s.m1.po_Bk)
    s.bond(s.m1.po_Fr, s.k.po_Fr)
    s.bond(s.k.po_Bk, s.m2.po_Fr)
    s.bond(s.m2.po_Bk, s.R.po_Fr)
    s.insert(ro.DCReadout(port=s.R.Wpd.o), 'r')
    return s.r.DC_readout


_it = {}


def run_iter(case, ctx):
    typ, vals = case['typ'], case['vals']
    got = np.broadcast_to(iter_all(typ, vals, 100.), np.shape(vals))
    for i, v in enumerate(vals):
        if (typ, v) not in _it:
            _it[typ, v] = iter_all(typ, v, 100.)
        ctx.close(got[i], _it[typ, v], lambda: "cavity with a nonlinear crystal, {0} = {1}, index {2}".format(typ, vals, i), rtol=1e-6, atol=0)
        ctx.step()
    ctx.state(case)
    ctx.trace()


def cases_iter(tier):
    V = [1e-10, .3, 1.] if tier == 'quick' else [1e-10, 1e-5, .1, .3, 1.]
    for v in itertools.permutations(V, 2):
        yield dict(typ='power', vals=list(v))
    for v in itertools.permutations([1., .5, .2], 2):
        yield dict(typ='T', vals=list(v))


# ---- arrays of the frequencies of the structure (modulations, demodulations), with arrays of audio frequencies
def radio_all(FAC, FRF, L, typ):
    import phasor.system as system
    import phasor.optics as o
    import phasor.readouts as ro
    import phasor.signals as sg
    import phasor.base as base
    s = system.BGSystem(F_AC=FAC)
    f = s.insert(base.Frequency(F_Hz=FRF, order=1, F_center_Hz=1e6), 'F1')
    s.insert(o.Laser(F=s.F_carrier_1064, power_W=1.), 'L')
    s.insert(sg.SignalGenerator(F=f, amplitude=.2), 'gen')
    s.insert(o.PM() if typ == 'pm' else o.AM(), 'mod')
    s.insert(o.Space(L_m=L, L_detune_m=1e-8), 's')
    s.insert(o.Mirror(T_hr=.1), 'm1')
    s.insert(o.Mirror(T_hr=.1), 'm2')
    s.insert(o.PD(), 'R')
    s.insert(sg.Mixer(), 'mix')
    s.insert(sg.SignalGenerator(F=f, amplitude=1.), 'lo')
    s.bond(s.gen.ps_Out, s.mod.Drv)
    s.bond(s.L.po_Fr, s.mod.po_Fr)
    s.bond(s.mod.po_Bk, s.m1.po_Bk)
    s.bond(s.m1.po_Fr, s.s.po_Fr)
    s.bond(s.s.po_Bk, s.m2.po_Fr)
    s.bond(s.m2.po_Bk, s.R.po_Fr)
    s.bond(s.R.Wpd, s.mix.ps_In)
    s.bond(s.lo.ps_Out, s.mix.ps_LO)
    s.insert(ro.DCReadout(port=s.R.Wpd.o), 'p')
    s.insert(ro.DCReadout(port=s.mix.ps_R_I.o), 'i')
    s.insert(ro.DCReadout(port=s.mix.ps_R_Q.o), 'q')
    s.insert(ro.ACReadout(portD=s.m2.Z.d.o, portN=s.mix.ps_R_I.o), 'a')
    return dict(p=s.p.DC_readout, i=s.i.DC_readout, q=s.q.DC_readout, sens=s.a.AC_sensitivity, psd=s.a.AC_PSD)


_rad = {}


def run_radio(case, ctx):
    arr = [np.array(case[k]) for k in ('FAC', 'FRF', 'L')]
    got = radio_all(*[a if a.shape else float(a) for a in arr], typ=case['typ'])
    full = np.broadcast_arrays(*arr)
    for idx in np.ndindex(*full[0].shape):
        key = tuple(float(a[idx]) for a in full) + (case['typ'],)
        if key not in _rad:
            _rad[key] = radio_all(*key)
        for k in sorted(got):
            ctx.close(np.broadcast_to(got[k], full[0].shape)[idx], _rad[key][k], lambda: "modulated cavity {0}, output {1}, index {2}".format(case, k, idx), rtol=1e-6, atol=1e-12 if k in 'piq' else 0)
            ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} dimensions'.format(full[0].ndim))


def cases_radio(tier):
    A, B, C = [1e2, 1e5], [1e6, 3e6], [3., 21.]
    col = lambda v: [[x] for x in v]
    tup = lambda v: [[[x]] for x in v]
    shapes = [
        (A[0], B, C[0]), (A, B, C[0]), (A, col(B), C[0]), (col(A), B, C[0]), (A[0], B, C), (A[0], col(B), C),
        (A[0], B, col(C)), (A, B, C), (A, col(B), C), (col(A), B, C), (A, B, col(C)), (A, col(B), tup(C)), (A, tup(B), col(C)), (tup(A), B, col(C)),
        ([1e2, 3., 1e5], col(B), C[0]), (A, col([1e6, 2e6, 3e6]), C[0]), (tup(A), col([1e6, 2e6, 3e6]), C),
    ]
    for typ in ('pm', 'am'):
        for a, b, c in shapes:
            yield dict(typ=typ, FAC=a, FRF=b, L=c)


FAMILIES = [
    Family('arrays', cases, run, "14 systems: arrays of up to 4 frequencies (1 and 2 dimensional, reversed, repeated), every parameter as an array, alone, with the frequencies, and pairs of parameters on two axes", chunk=3),
    Family('elements', cases_elements, run_elements, "every numeric parameter of mirrors, spaces, lasers, polarizing mirrors, rotators, wave plates, resistors, capacitors, inductors, cables, springs, dampers, masses, sources, gains, filters and noises as arrays, including values at which a coupling vanishes at some of the indices, alone, with frequencies, and in pairs", chunk=1),
    Family('iterated', cases_iter, run_iter, "a cavity around a nonlinear crystal (solved by iteration) for all pairs of 3 (5) powers spanning ten decades", chunk=1),
    Family('radio', cases_radio, run_radio, "a cavity with modulated light and a demodulated photodiode: arrays of the audio frequency, the modulation frequency and the length on the same and on different axes (17 combinations of shapes), phase and amplitude modulation", chunk=2),
]
