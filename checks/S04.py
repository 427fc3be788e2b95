# -*- coding: utf-8 -*-
"""
Readouts only read: neither which of them are present, nor the order and number of queries changes a result.
"""
import copy
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import zoo

ASSUMPTIONS = [
    "oracle: every system with all its readouts, each queried once in the listed order",
]

_names = {}


def labels(zn):
    if zn not in _names:
        _names[zn] = zoo.ALL[zn]().outputs()
    return _names[zn]


def run_queries(case, ctx):
    z, want = zoo.reference(case['zoo'])
    b = zoo.Built(z)
    names = z.outputs()
    first = {}
    seq = [names[i] for i in case['seq']]
    for k in seq:
        g = b.get(k)
        zoo.same(ctx, {k: g}, {k: want[k]}, lambda: "system {0}, output {1} queried within {2}".format(case['zoo'], k, seq))
        if k in first:
            ctx.require(np.array_equal(np.asarray(first[k]), np.asarray(g)), lambda: "system {0}: {1} changed when queried again within {2}".format(case['zoo'], k, seq))
        first.setdefault(k, np.array(g, copy=True))
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} queries'.format(len(seq)))


def cases_queries(tier):
    for zn in sorted(zoo.ALL):
        n = len(labels(zn))
        slow = zoo.ALL[zn]().slow
        if n <= 3 or (n == 4 and tier == 'thorough'):
            for p in itertools.permutations(range(n)):
                yield dict(zoo=zn, seq=list(p) + list(p))
        else:
            for k in (2, 3):
                if k == 3 and tier == 'quick':
                    continue
                for p in itertools.permutations(range(n), k):
                    if slow and tier == 'quick' and p[0] > p[1]:
                        continue
                    yield dict(zoo=zn, seq=list(p) + [p[0]])


def deps(z):
    """readouts needed by each readout: found by the ports it asks for"""
    b = zoo.Built(z)
    names = [n for n, f, o in z.reads]
    ret = []
    for n, f, o in z.reads:
        asked = set()

        def port(path):
            asked.add(path.split('.')[0])
            return zoo.port_get(b.sys, path)
        f(b.sys, z.params, port)
        ret.append([names.index(a) for a in asked if a in names])
    return ret


_deps = {}


def run_subset(case, ctx):
    z, want = zoo.reference(case['zoo'])
    z2 = copy.copy(z)
    z2.reads = [z.reads[i] for i in case['reads']]
    b = zoo.Built(z2)
    got = b.all()
    zoo.same(ctx, got, dict((k, want[k]) for k in got), lambda: "system {0} with only the readouts {1}".format(case['zoo'], [r[0] for r in z2.reads]))
    ctx.step(len(got))
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} of {1} readouts'.format(len(z2.reads), len(z.reads)))


def cases_subset(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        if zn not in _deps:
            _deps[zn] = deps(z)
        D = _deps[zn]
        n = len(z.reads)
        for k in range(1, n):
            for sub in itertools.combinations(range(n), k):
                if all(d in sub for i in sub for d in D[i]):
                    if any(z.reads[i][2] for i in sub):
                        yield dict(zoo=zn, reads=list(sub))


def run_twice(case, ctx):
    """a readout present twice, with or without noise, agrees with itself"""
    z, want = zoo.reference(case['zoo'])
    z2 = copy.copy(z)
    name, f, outs = z.reads[case['read']]
    z2.reads = list(z.reads)
    pos = case['pos']
    z2.reads.insert(len(z2.reads) if pos else case['read'], (name + 'Copy', f, outs))
    b = zoo.Built(z2)
    w = dict(want)
    for lab, g in outs:
        w[name + 'Copy.' + lab] = want[name + '.' + lab]
    zoo.same(ctx, b.all(), w, lambda: "system {0} with readout {1} doubled".format(case['zoo'], name))
    ctx.step(len(w))
    ctx.state(case)
    ctx.trace()
    ctx.cls('doubled')


def cases_twice(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        for i, (n, f, outs) in enumerate(z.reads):
            if not outs or (z.late and 'ac' not in n and 'nz' not in n):
                # electrical readouts are elements which bond to the circuit
                continue
            for pos in (0, 1):
                yield dict(zoo=zn, read=i, pos=pos)


def run_sets(case, ctx):
    """the sets of ports which are solved together make no difference"""
    z, want = zoo.reference(case['zoo'])
    b = zoo.Built(z, params=dict(port_sets=dict((n, 'set{0}'.format(k)) for n, k in case['sets'] if k is not None)))
    got = b.all()
    zoo.same(ctx, got, want, lambda: "system {0} with readouts solved in the sets {1}".format(case['zoo'], case['sets']))
    ctx.step(len(got))
    ctx.state(case)
    ctx.trace()
    ctx.cls('sets of ports')


def cases_sets(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        kinds = []
        for n, f, outs in z.reads:
            labs = [l for l, g in outs]
            kinds.append('DC' if labs == ['DC'] else 'AC' if labs[:1] == ['AC'] else 'NS' if labs == ['PSD'] else None)
        idx = [i for i, k in enumerate(kinds) if k]
        names = [n for n, f, o in z.reads]
        # each in its own, all of a kind in one, every one apart from the rest
        yield dict(zoo=zn, sets=[[names[i], i] for i in idx])
        yield dict(zoo=zn, sets=[[names[i], kinds[i]] for i in idx])
        yield dict(zoo=zn, sets=[[names[i], 0] for i in idx])
        for j in idx if len(idx) > 1 else []:
            yield dict(zoo=zn, sets=[[names[j], 0]])
            if tier != 'quick':
                yield dict(zoo=zn, sets=[[names[i], 0] for i in idx if i != j])


def run_inputs(case, ctx):
    """arrays handed in by the caller are not modified, and later modification by the caller of a copy has no effect"""
    z, want0 = zoo.reference(case['zoo'])
    F = np.array([3., 40., 700.])
    F0 = F.copy()
    b = zoo.Built(z, F_AC=F)
    got = b.all()
    ctx.require(np.array_equal(F, F0), lambda: "system {0} modified the F_AC array of the caller to {1}".format(case['zoo'], F))
    # results are the callers: scribbling on one must not change what is read for the others
    names = z.outputs()
    k0 = names[case['scribble']]
    keep = dict((k, np.array(v, copy=True)) for k, v in got.items())
    v = got[k0]
    if isinstance(v, np.ndarray) and v.flags.writeable and v.shape:
        v *= 0
        b2 = zoo.Built(z, F_AC=F0)
        zoo.same(ctx, b2.all(), keep, lambda: "system {0} built after output {1} of another was overwritten".format(case['zoo'], k0))
    got2 = dict((k, b.get(k)) for k in names if k != k0)
    zoo.same(ctx, got2, dict((k, keep[k]) for k in got2), lambda: "system {0} after output {1} was overwritten by the caller".format(case['zoo'], k0))
    ctx.step(3)
    ctx.state(case)
    ctx.trace()
    ctx.cls('inputs')


def cases_inputs(tier):
    for zn in sorted(zoo.ALL):
        for i in range(len(labels(zn))):
            yield dict(zoo=zn, scribble=i)


HOM = ['AC_sensitivity', 'AC_noise_limited_sensitivity', 'AC_ASD', 'AC_PSD', 'AC_PSD_by_source', 'rotation_matrix_back', 'AC_CSD_IQ_back', 'AC_CSD_IQ',
       'AC_CSD_IQ_re_inv_back', 'AC_CSD_IQ_re_inv', 'AC_noise_limited_sensitivity_optimal', 'AC_CSD_IQ_inv_back', 'AC_CSD_IQ_inv', 'AC_CSD_ellipse',
       'AC_CSD_ellipse_norm', 'AC_CSD_ellipse_normSN', 'AC_signal_matrix', 'AC_signal_matrix_norm', 'AC_signal_ellipse', 'AC_signal_ellipse_norm',
       'AC_optimal_readout_deg', 'optimal_readout.AC_PSD', 'optimal_readout.AC_sensitivity', 'AC_CSD_IQ_norm', 'AC_sensitivity_IQ', 'AC_sensitivity_IQ_back',
       'rotated.AC_PSD', 'rotated.AC_CSD_IQ_norm', 'rotated.AC_CSD_IQ', 'F_Hz']
QUANTITIES = (['hom.' + n for n in HOM] + ['ac.' + n for n in ('AC_sensitivity', 'AC_PSD', 'AC_ASD', 'AC_noise_limited_sensitivity', 'AC_PSD_by_source', 'F_Hz')]
              + ['ol.AC_sensitivityOL', 'ol.AC_sensitivity', 'ol.AC_PSD', 'lg.CLG', 'lg.OLG', 'lg.GPlant', 'nz.CSD', 'nz.CSD_by_source', 'dc.DC_readout'])
_derived = {}


def derived_model(kind):
    import phasor.optics as o
    import phasor.readouts as ro
    import phasor.system as system
    import phasor.signals as sg
    sys = system.BGSystem(F_AC=np.array([1e3, 2e4]))
    own = sys.own
    own.las = o.Laser(F=sys.F_carrier_1064, power_W=1.)
    own.pm = o.PM()
    own.am = o.AM()
    own.m1 = o.Mirror(T_hr=.1, L_hr=.01)
    own.s = o.Space(L_m=3e3, L_detune_m=3e-8)
    own.m2 = o.Mirror(T_hr=.05)
    own.hd = o.HiddenVariableHomodynePD(phase_deg=20, source_port=own.las.po_Fr.o)
    own.pd = o.PD()
    own.gain = sg.SRationalFilter(poles_r=(-100.,), gain=1e3)
    sys.bond(own.las.po_Fr, own.pm.po_Fr)
    sys.bond(own.pm.po_Bk, own.am.po_Fr)
    sys.bond(own.am.po_Bk, own.m1.po_Bk)
    sys.bond(own.m1.po_Fr, own.s.po_Fr)
    sys.bond(own.s.po_Bk, own.m2.po_Fr)
    sys.bond(own.m2.po_Bk, own.hd.po_Fr)
    sys.bond(own.hd.po_Bk, own.pd.po_Fr)
    sys.bond(own.pd.Wpd, own.gain.ps_In)
    if kind == 'loop':
        sys.bond(own.gain.ps_Out, own.am.Drv)
    own.hom = ro.HomodyneACReadout(portNI=own.hd.rtWpdI.o, portNQ=own.hd.rtWpdQ.o, portD=own.m2.Z.d.o, phase_deg=30)
    own.ac = ro.ACReadout(portD=own.m1.Z.d.o, portN=own.pd.Wpd.o)
    own.ol = ro.ACReadout(portD=own.pd.Wpd.o, portN=own.gain.ps_Out.o, portDrv=own.am.Drv.i)
    own.lg = ro.ACReadoutLG(portSense=own.gain.ps_Out.o, portAct=own.am.Drv.i)
    own.nz = ro.NoiseReadout(port_map=dict(a=own.pd.Wpd.o, b=own.hd.rtWpdI.o, c=own.hd.rtWpdQ.o))
    own.dc = ro.DCReadout(port=own.pd.Wpd.o)
    return sys


def flat(v):
    """copies of everything in an answer"""
    if hasattr(v, 'items'):
        return dict(((str(getattr(k, 'name_system', k)),) + k2, x) for k, y in v.items() for k2, x in flat(y).items())
    return {(): np.array(getattr(v, 'val', v), copy=True)}


def derived_get(sys, q):
    obj, path = q.split('.', 1)
    v = getattr(sys, obj)
    for n in path.split('.'):
        v = v.rotate_deg(25) if n == 'rotated' else getattr(v, n)
    return flat(v)


def walk(el, path):
    for name, c in sorted(getattr(el, '_registry_children', {}).items(), key=lambda nc: str(nc[0])):
        if hasattr(c, '_registry_children'):
            p = '{0}.{1}'.format(path, name)
            yield p, c
            for x in walk(c, p):
                yield x


_ports = {}


def signal_ports(zn):
    if zn not in _ports:
        z = zoo.ALL[zn]()
        b = zoo.Built(z)
        b.all()
        _ports[zn] = sorted(p for n, f in z.els for p, c in walk(b.sys[n], n) if getattr(c, 'typename', None) == 'signal_out')
    return _ports[zn]


def run_testpoint(case, ctx):
    """a test point gives what the readouts of its port give, and leaves the other readouts alone"""
    import phasor.readouts as ro
    z, want = zoo.reference(case['zoo'])
    b0 = zoo.Built(z)
    port0 = zoo.port_get(b0.sys, case['port'])
    b0.sys.insert(ro.DCReadout(port=port0.o), 'tp_dc')
    b0.sys.insert(ro.NoiseReadout(portN=port0.o), 'tp_nz')
    dc, nz = b0.sys.tp_dc.DC_readout, b0.sys.tp_nz
    b = zoo.Built(z)
    port = zoo.port_get(b.sys, case['port'])
    if case['inside']:
        port.insert(ro.Testpoint(), 'tp')
        tp = port.tp
    else:
        b.sys.insert(ro.Testpoint(port=port.o), 'tp')
        tp = b.sys.tp
    if case['first']:
        zoo.same(ctx, b.all(), want, lambda: "system {zoo} with a test point at {port}".format(**case))
    psd = np.real(nz.CSD['R', 'R'])
    sc = float(np.max(abs(psd)))
    ctx.close(tp.DC, dc, lambda: "static value of the test point {0}".format(case), rtol=1e-6, atol=1e-9 + 1e-9 * float(np.max(abs(dc))))
    ctx.close(np.real(tp.AC_PSD), psd, lambda: "spectrum of the test point {0}".format(case), rtol=1e-5, atol=1e-7 * sc + 1e-50)
    if sc > 1e-50:
        ctx.close(np.real(tp.AC_ASD)**2, psd, lambda: "amplitude spectrum of the test point {0}".format(case), rtol=1e-5, atol=1e-7 * sc + 1e-50)
    tot = sum(np.real(v) for v in tp.AC_PSD_by_source.values())
    ctx.close(tot, psd, lambda: "sum of the sources of noise of the test point {0}".format(case), rtol=1e-5, atol=1e-7 * sc + 1e-50)
    if not case['first']:
        zoo.same(ctx, b.all(), want, lambda: "system {zoo} with a test point at {port}, read first".format(**case))
    ctx.step(4)
    ctx.state(case)
    ctx.trace()
    ctx.cls('noisy' if sc > 1e-50 else 'quiet')


def cases_testpoint(tier):
    for zn in sorted(zoo.ALL):
        for i, p in enumerate(signal_ports(zn)):
            for inside, first in itertools.product((0, 1), (0, 1)):
                if tier == 'thorough' or (inside + 2 * first) == i % 4:
                    yield dict(zoo=zn, port=p, inside=inside, first=first)


def leaves(v):
    if hasattr(v, 'items'):
        for y in v.values():
            for x in leaves(y):
                yield x
    elif isinstance(v, np.ndarray):
        yield v


def run_scribble(case, ctx):
    """overwriting the arrays of an answer does not change what other readouts answer, asked for before or only afterwards"""
    kind = case['kind']
    q0 = QUANTITIES[case['q']]
    sys = derived_model(kind)
    others = [q for q in QUANTITIES if q.split('.')[0] != q0.split('.')[0]]
    if case['before']:
        for q in others:
            derived_get(sys, q)
    obj, path = q0.split('.', 1)
    v = getattr(sys, obj)
    for n in path.split('.'):
        v = v.rotate_deg(25) if n == 'rotated' else getattr(v, n)
    n = 0
    for x in leaves(v):
        if x.flags.writeable:
            x[...] = 7
            n += 1
    for q in others:
        if (kind, q) not in _derived:
            _derived[kind, q] = derived_get(derived_model(kind), q)
        want = _derived[kind, q]
        got = derived_get(sys, q)
        for k in got:
            w = want[k]
            ctx.close(got[k], w, lambda: "{0} {1} of the {2} after {3} was overwritten".format(q, k, kind, q0), rtol=1e-6, atol=1e-7 * float(np.max(abs(w))) + (1e-9 if q.startswith('lg') else 0))
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls('{0} {1}'.format(kind, 'overwritten' if n else 'not writeable'))


def cases_scribble(tier):
    for kind in ('line', 'loop'):
        for q in range(len(QUANTITIES)):
            for before in (0, 1) if tier == 'thorough' else (int(kind == 'loop'),):
                yield dict(kind=kind, q=q, before=before)


def run_derived(case, ctx):
    kind = case['kind']
    seq = [QUANTITIES[i] for i in case['seq']]
    sys = derived_model(kind)
    for q in seq:
        if (kind, q) not in _derived:
            _derived[kind, q] = derived_get(derived_model(kind), q)
        want = _derived[kind, q]
        got = derived_get(sys, q)
        ctx.require(set(got) == set(want), lambda: "{0} of the {1} queried within {2} has entries {3} rather than {4}".format(q, kind, seq, sorted(got), sorted(want)))
        for k in got:
            w = want[k]
            ctx.close(got[k], w, lambda: "{0} {1} of the {2} queried within {3}".format(q, k, kind, seq), rtol=1e-6, atol=1e-7 * float(np.max(abs(w))) + (1e-9 if q.startswith('lg') else 0))
        ctx.step()
    ctx.state(case)
    ctx.trace()
    ctx.cls(kind)


def cases_derived(tier):
    n = len(QUANTITIES)
    for kind in ('line', 'loop'):
        for p in range(n):
            rest = [q for q in range(n) if q != p]
            for o in (rest, rest[::-1]):
                # every quantity as the first, all others after it, up and down, and again
                yield dict(kind=kind, seq=[p] + o + [p])
            if tier == 'thorough':
                for q in rest:
                    yield dict(kind=kind, seq=[p, q, p])


FAMILIES = [
    Family('queries', cases_queries, run_queries, "14 systems, all orders of querying the outputs (every ordered pair (triple) first where there are more than 3 (4)), queried again after"),
    Family('subset', cases_subset, run_subset, "14 systems with every subset of their readouts"),
    Family('twice', cases_twice, run_twice, "14 systems, every readout doubled, before or after the others"),
    Family("sets", cases_sets, run_sets, "14 systems, the static and AC readouts each solved in a set of ports of its own, all in one set, one apart from the rest"),
    Family('derived', cases_derived, run_derived, "a homodyne readout, transfer, noise and static readouts of one cavity or loop: each of 45 quantities as the first, followed by all others up or down, and again (and every ordered pair alone in the thorough tier)"),
    Family('scribble', cases_scribble, run_scribble, "the same models: the arrays of each of the 45 quantities overwritten, all quantities of the other readouts asked for only afterwards (before too in the loop; all four combinations in the thorough tier)"),
    Family('testpoint', cases_testpoint, run_testpoint, "14 systems with a test point at each of their signal outputs, by name or inside the port, read before or after the readouts (quick: one of the four combinations for each)"),
    Family('inputs', cases_inputs, run_inputs, "14 systems, caller's arrays kept, every output overwritten by the caller"),
]
