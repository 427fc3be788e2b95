# -*- coding: utf-8 -*-
"""
Light and moving mirrors: the closed loop of radiation pressure, mechanics and optics.
"""
import itertools
import json
import numpy as np
from mc.core import Family, Violation
from mc import optref, mechref
from mc.optref import C, H, LAM

ASSUMPTIONS = [
    "the closed loop is judged against its open parts: force of each beam on a fixed mirror and mobility of the unlit mechanics, both measured, and the "
    "dense optical reference; the parts are judged by the families 'force' and 'port' against momentum conservation and the mechanical tableau",
    "static displacements do not act back on the light (stated limit of the simulator)",
]
F_AC = [5., 21., 140.]
mechref.PORTS['Z'] = ['Z']
_cache = {}


def insert_mech(sys, objs, mech):
    """mech: mechanical network with pseudo elements ['Z', element of the optical network, [node]]"""
    els = []
    for k, (typ, val, nodes) in enumerate(mech):
        if typ == 'Z':
            els.append(objs[val])
        else:
            sys.insert(mechref.construct(typ, val), 'mech{0}'.format(k))
            els.append(getattr(sys, 'mech{0}'.format(k)))
    return els


def bonded(mech):
    return [e for e, x in enumerate(mech) if x[0] == 'Z']


def measured_g(typ, par):
    """force per incident power (N/W) on each side of the fixed mirror"""
    key = json.dumps(['g', typ, par], sort_keys=True)
    if key not in _cache:
        import phasor.readouts as ro
        _cache[key] = {}
        for p in optref.ports_of(typ, par):
            net = dict(elements=[[typ, par], ['LAS', dict(P=1e6)]], links=[[[0, p], [1, 'po_Fr']]])
            sys, objs = optref.build(net, 10.)
            sys.insert(ro.DCReadout(port=objs[0].Z.F.i), 'F')
            _cache[key][p] = complex(sys.F.DC_readout).real / 1e6
    return _cache[key]


def measured_chi(mech):
    """displacements of the mirrors per force on them, without light: {(to, from): array}"""
    key = json.dumps(['chi', mech])
    if key not in _cache:
        import phasor.system as system
        import phasor.optics as optics
        import phasor.readouts as ro
        sys = system.BGSystem(F_AC=np.array(F_AC))
        objs = {}
        for k in bonded(mech):
            sys.insert(optics.Mirror(T_hr=.5), 'm{0}'.format(k))
            objs[mech[k][1]] = getattr(sys, 'm{0}'.format(k))
        els = insert_mech(sys, objs, mech)
        mechref.bond_net(sys, els, mech, 'chain')
        res = {}
        for i in bonded(mech):
            for j in bonded(mech):
                sys.insert(ro.ACReadout(portD=els[j].Z.F.i, portN=els[i].Z.d.o, include_noise=False), 'x{0}_{1}'.format(i, j))
        for i in bonded(mech):
            for j in bonded(mech):
                res[mech[i][1], mech[j][1]] = getattr(sys, 'x{0}_{1}'.format(i, j)).AC_sensitivity + 0 * np.array(F_AC)
        _cache[key] = res
    return _cache[key]


def exact_chi(mech, F, port):
    """port: with the parasitic spring and the doubled force of the driven port"""
    net = [['FS', 1., x[2]] if x[0] == 'Z' else x for x in mech]
    if port:
        net = net + [['K', [1., None], x[2]] for x in mech if x[0] == 'Z']
    t = mechref.Tableau(net, F)
    if not t.ok:
        return None
    res = {}
    for j in bonded(mech):
        d, f = t.solve({j: 2. if port else 1.})
        for i in bonded(mech):
            res[mech[i][1], mech[j][1]] = d[t.pidx[i, 0]]
    return res


class Loop(object):
    """the closed loop at one frequency"""
    def __init__(self, R, net, mech, chi, fi):
        self.R, self.F = R, F_AC[fi]
        self.mir = [e for e, (t, p) in enumerate(net['elements']) if t in ('M', 'M4')]
        self.g = dict((e, measured_g(*net['elements'][e])) for e in self.mir)
        self.chi = np.array([[chi[a, b][fi] if (a, b) in chi else 0 for b in self.mir] for a in self.mir])
        self.sb = [R.sidebands(e, 'Z', self.F) for e in self.mir]
        n = len(self.mir)
        self.K = np.array([self.force(s) for s in self.sb]).T
        self.loop = np.eye(n) - self.chi.dot(self.K)
        self.ok = np.linalg.cond(self.loop) < 1e6

    def force(self, sb):
        return np.array([sum(g * self.R.power_response(sb, e, p) for p, g in self.g[e].items()) for e in self.mir])

    def respond(self, sb, Fdrv=None, inj=None):
        """base sidebands (or None), direct forces, injected displacements: all displacements and forces and the sidebands"""
        n = len(self.mir)
        f0 = np.zeros(n, dtype=complex)
        if sb is not None:
            f0 = f0 + self.force(sb)
        if Fdrv is not None:
            f0 = f0 + Fdrv
        x = self.chi.dot(f0)
        if inj is not None:
            x = x + inj
        x = np.linalg.solve(self.loop, x)
        f = f0 + self.K.dot(x)
        return x, f, lambda m, p: (self.R.power_response(sb, m, p) if sb is not None else 0) + sum(
            xi * self.R.power_response(s, m, p) for xi, s in zip(x, self.sb))


def setup(case, ctx):
    net, det = optref.with_detectors(case['net'], False)
    mech = case['mech']
    R = optref.Ref(net)
    if not R.ok or not all(np.linalg.cond(R.A(s * f)) < 1e5 for f in F_AC for s in (1, -1)):
        ctx.cls('ill posed')
        return None
    if not all(exact_chi(mech, f, q) is not None for f in F_AC for q in (0, 1)):
        ctx.cls('ill posed mechanics')
        return None
    chi = measured_chi(mech)
    loops = [Loop(R, net, mech, chi, k) for k in range(len(F_AC))]
    if not all(l.ok for l in loops):
        ctx.cls('ill posed loop')
        return None
    sys, objs = optref.build(net, np.array(F_AC))
    els = insert_mech(sys, objs, mech)
    mechref.bond_net(sys, els, mech, case.get('style', 'chain'))
    return net, det, R, loops, sys, objs


def run_loop(case, ctx):
    import phasor.readouts as ro
    st = setup(case, ctx)
    if st is None:
        return
    net, det, R, loops, sys, objs = st
    mir = loops[0].mir
    n = len(mir)
    drives = []
    for e, (typ, par) in enumerate(net['elements']):
        if typ in ('AM', 'PM'):
            drives.append(((e, typ), objs[e].Drv.i))
        elif typ in ('M', 'M4'):
            if e in [x[1] for x in case['mech'] if x[0] == 'Z']:
                drives.append(((e, 'F'), objs[e].Z.F.i))
            drives.append(((e, 'd'), objs[e].Z.d.o))
    outs = [(('W', m, p), objs[m].Wpd.o) for m, p in det]
    outs += [(('F', e), objs[e].Z.F.i) for e in mir] + [(('d', e), objs[e].Z.d.o) for e in mir]
    for i, (k, d) in enumerate(drives):
        for j, (o, q) in enumerate(outs):
            sys.insert(ro.ACReadout(portD=d, portN=q, include_noise=False), 'ac{0}_{1}'.format(i, j))
    for j, (o, q) in enumerate(outs):
        if o[0] in ('F', 'd'):
            sys.insert(ro.DCReadout(port=q), 'dc{0}'.format(j))
    for i, ((e, kind), d) in enumerate(drives):
        want, scale = [], []
        for l in loops:
            if kind in ('AM', 'PM'):
                x, f, W = l.respond(R.sidebands(e, kind, l.F))
            else:
                u = np.array([1. if k == e else 0. for k in mir])
                x, f, W = l.respond(None, u if kind == 'F' else None, u if kind == 'd' else None)
            row = []
            for o, q in outs:
                row.append(W(*o[1:]) if o[0] == 'W' else (f if o[0] == 'F' else x)[mir.index(o[1])])
            want.append(row)
            # sizes of what may cancel
            X = np.max(abs(l.chi)) + 1e-12
            P = np.max(abs(R.a0))**2
            mod = .5 * P if kind in ('AM', 'PM') else 0.
            xs = max(abs(x).max(), X * mod * 2 / C)
            big = X * 2 / C * P * 4 * np.pi / LAM * 1e-3
            xs = xs * max(1, big)
            ws = max(xs * 4 * np.pi / LAM * P, mod)
            scale.append([dict(W=ws, F=ws * 2 / C + max(abs(f)), d=xs)[o[0]] for o, q in outs])
        for j, (o, q) in enumerate(outs):
            got = getattr(sys, 'ac{0}_{1}'.format(i, j)).AC_sensitivity
            w = np.array([r[j] for r in want])
            s = np.array([r[j] for r in scale])
            ctx.require(bool(np.all(abs(np.asarray(got) - w) <= 2e-5 * abs(w) + 1e-6 * s)),
                        lambda: "{0} by {1} of {2} with {3}: got {4}, expected {5}".format(o, (e, kind), case['net'], case['mech'], got, w))
            ctx.step(len(F_AC))
        ctx.cls(kind)
    ctx.state(case['net'], case['mech'])
    ctx.trace()


def run_noise(case, ctx):
    import phasor.readouts as ro
    st = setup(case, ctx)
    if st is None:
        return
    net, det, R, loops, sys, objs = st
    mir = loops[0].mir
    outs = [(('W', m, p), objs[m].Wpd.o) for m, p in det]
    outs += [(('F', e), objs[e].Z.F.i) for e in mir] + [(('d', e), objs[e].Z.d.o) for e in mir if e in [x[1] for x in case['mech'] if x[0] == 'Z']]
    names = ['r{0}'.format(j) for j in range(len(outs))]
    sys.insert(ro.NoiseReadout(port_map=dict((nm, q) for nm, (o, q) in zip(names, outs))), 'noise')
    CSD = sys.noise.CSD
    want = []
    for l in loops:
        tot = np.zeros((len(outs), len(outs)), dtype=complex)
        n2 = 2 * len(R.idx)
        for j, pol, amp in R.vacua():
            src = np.zeros(n2, dtype=complex)
            src[2 * j + pol] = amp
            zero = np.zeros(n2, dtype=complex)
            for sb in ((R.solve(l.F, src), zero), (zero, R.solve(-l.F, src))):
                x, f, W = l.respond(sb)
                v = np.array([W(*o[1:]) if o[0] == 'W' else (f if o[0] == 'F' else x)[mir.index(o[1])] for o, q in outs])
                tot += np.outer(v, v.conj())
        want.append(tot * H * C / LAM)
    want = np.array(want)
    # the displacements driven by one quadrature of the light show up, amplified, in the other one, and cancel in powers
    big = np.array([np.max(abs(l.chi)) for l in loops]) * 2 / C * np.max(abs(R.a0))**2 * 4 * np.pi / LAM
    size = [np.sqrt(abs(want[:, a, a])) for a in range(len(outs))]
    Fs = max(size[a].max() for a in range(len(outs)) if outs[a][0][0] == 'F')
    size = [z + (1e-10 * Fs if outs[a][0][0] == 'd' else 0) for a, z in enumerate(size)]
    for a, na in enumerate(names):
        for b, nb in enumerate(names):
            got = np.asarray(CSD.get((na, nb), 0)) + np.zeros(len(F_AC))
            w = want[:, a, b]
            sc = size[a] * size[b]
            ctx.require(bool(np.all(abs(got - w) <= (2e-5 + 1e-15 * big**2) * sc + 1e-300)),
                        lambda: "spectrum of {0} and {1} of {2} with {3}: got {4}, expected {5}".format(outs[a][0], outs[b][0], case['net'], case['mech'], got, w))
            ctx.step(len(F_AC))
    ctx.cls('{0} mirrors'.format(len(mir)))
    ctx.state(case['net'], case['mech'])
    ctx.trace()


# parts --------------------------------------------------------------------

def run_force(case, ctx):
    """momentum conservation on fixed mirrors: all the light entering and leaving"""
    import phasor.readouts as ro
    net, det = optref.with_detectors(case['net'], False)
    R = optref.Ref(net)
    if not R.ok:
        ctx.cls('ill posed')
        return
    sys, objs = optref.build(net, np.array(F_AC))
    mir = [e for e, (t, p) in enumerate(net['elements']) if t in ('M', 'M4')]
    mods = [(e, t) for e, (t, p) in enumerate(net['elements']) if t in ('AM', 'PM')]
    for m in mir:
        sys.insert(ro.DCReadout(port=objs[m].Z.F.i), 'dc{0}'.format(m))
        for e, t in mods:
            sys.insert(ro.ACReadout(portD=objs[e].Drv.i, portN=objs[m].Z.F.i, include_noise=False), 'ac{0}_{1}'.format(m, e))
    pending = None
    for m in mir:
        typ, par = net['elements'][m]
        cosA = 1. if typ == 'M' else np.cos(np.deg2rad(par.get('AOI', 45)))
        ports = optref.ports_of(typ, par)
        r = (1 - par['T'] - par.get('L', 0))**.5 * (-1 if par.get('flip') else 1)
        phi = np.deg2rad(par.get('phase_deg', 0))

        def power(sb, p, outgoing):
            f = R.out if outgoing else R.inc
            a = f(R.a0, m, p)
            if sb is None:
                return np.sum(abs(a)**2)
            return np.sum(np.conj(a) * f(sb[0], m, p) + a * np.conj(f(sb[1], m, p)))

        def exact(sb):
            # +Z is away from the front
            return cosA / C * sum((1 if p.startswith('po_Fr') else -1) * (power(sb, p, 0) + power(sb, p, 1)) for p in ports)

        def known(sb):
            # amplitude instead of power reflectivity with its phase, of the wrong sign for the front, no interference of the two sides
            tot = 0
            for p in ports:
                ph = phi if p.startswith('po_Fr') else -phi
                if sb is None:
                    tot += -2 * cosA / C * r * np.cos(ph) * power(None, p, 0)
                else:
                    a = R.inc(R.a0, m, p)
                    tot += -2 * cosA / C * r * np.sum(np.conj(a) * R.inc(sb[0], m, p) * np.exp(1j * ph) + a * np.conj(R.inc(sb[1], m, p)) * np.exp(-1j * ph))
            return tot

        todo = [('static', getattr(sys, 'dc{0}'.format(m)).DC_readout, None)]
        for e, t in mods:
            got = getattr(sys, 'ac{0}_{1}'.format(m, e)).AC_sensitivity
            for k, f in enumerate(F_AC):
                todo.append(((e, t), np.asarray(got).reshape(-1)[k if np.size(got) > 1 else 0], R.sidebands(e, t, f)))
        for what, got, sb in todo:
            sc = 1e-6 * np.max(abs(R.a0))**2 / C
            x, kn = exact(sb), known(sb)
            if abs(got - x) > sc:
                msg = "force ({0}) on mirror {1} of {2}: got {3}, expected {4}".format(what, m, net, got, x)
                ctx.require(abs(got - kn) <= sc, msg + ' (or, as known, {0})'.format(kn))
                pending = msg
            ctx.step()
    ctx.state(net)
    ctx.trace()
    if pending:
        raise Violation(pending, sig='mirror-force')


def run_port(case, ctx):
    """mobility of the mirrors against the mechanical tableau"""
    mech = case['mech']
    ex = [exact_chi(mech, f, 0) for f in F_AC]
    kn = [exact_chi(mech, f, 1) for f in F_AC]
    if any(x is None for x in ex + kn):
        ctx.cls('ill posed mechanics')
        return
    chi = measured_chi(mech)
    pending = None
    for k in ex[0]:
        for i in range(len(F_AC)):
            sc = 1e-6 * max(abs(v) for v in kn[i].values()) + 1e-12
            if abs(chi[k][i] - ex[i][k]) > sc:
                msg = "displacement per force {0} of mirrors in {1}: got {2}, expected {3}".format(k, mech, chi[k][i], ex[i][k])
                ctx.require(abs(chi[k][i] - kn[i][k]) <= sc, msg + ' (or, as known, {0})'.format(kn[i][k]))
                pending = msg
            ctx.step()
    ctx.state(mech)
    ctx.trace()
    if pending:
        raise Violation(pending, sig='mirror-mechanical-port')


# spaces -------------------------------------------------------------------
MIR = [dict(T=0.), dict(T=.3), dict(T=.2, L=.1), dict(T=.4, flip=True), dict(T=.25, phase_deg=40)]
MIR4 = [dict(T=0., AOI=45), dict(T=.5, AOI=45), dict(T=.3, AOI=20, L=.05)]
LOADS = [
    lambda z: [['Z', z, [0]], ['M', 1e-3, [0]]],
    lambda z: [['Z', z, [0]], ['K', [40., None], [0]]],
    lambda z: [['Z', z, [0]], ['M', 2e-3, [0]], ['K', [30., None], [0]]],
    lambda z: [['Z', z, [0]], ['SK', [15., None], [0, 1]], ['M', 1e-3, [1]]],
    lambda z: [['M', 5e-4, [1]], ['SK', [-8., None], [1, 0]], ['M', 1e-3, [0]], ['Z', z, [0]]],
    lambda z: [['Z', z, [0]], ['TS', None, [0]]],
    lambda z: [['Z', z, [0]], ['CBL', .002, [0, 1]], ['M', 1e-3, [1]]],
]
# with viscous loss (not for noise)
LOSSY = [
    lambda z: [['Z', z, [0]], ['M', 1e-3, [0]], ['D', .05, [0]]],
    lambda z: [['Z', z, [0]], ['SD', .3, [0, 1]], ['K', [9., None], [1]]],
]


def lit(P, mod, kind, par, port, second=None):
    """a modulated laser on a port of one mirror (element 0), another laser on a second port"""
    els = [[kind, par], ['LAS', dict(P=P)], [mod, {}]]
    links = [[[1, 'po_Fr'], [2, 'po_Fr']], [[2, 'po_Bk'], [0, port]]]
    if second:
        els.append(['LAS', dict(P=P / 3, phase_deg=50)])
        links.append([[3, 'po_Fr'], [0, second]])
    return dict(elements=els, links=links)


def lit_cases(P, mods, n=4):
    for kind, pars, ports in (('M', MIR[:n], optref.P2), ('M4', MIR4, optref.P4)):
        for par in pars:
            for mod in mods:
                for p, q in itertools.product(ports, [None] + ports):
                    if p != q:
                        yield lit(P, mod, kind, par, p, q)


def cases_force(tier):
    for net in lit_cases(1e5, ('AM', 'PM'), 5):
        yield dict(net=net)
    for net in cavities(tier):
        yield dict(net=net)


def cavities(tier):
    """laser, AM or PM, two mirrors around a space, the first mirror either way around"""
    ds = (0., 4e-9, -7e-9) if tier == 'quick' else (0., 1e-9, 4e-9, -7e-9, 6e-8)
    for mod in ('AM', 'PM'):
        for L in (1., 4e5):
            for d in ds:
                for rev in (0, 1):
                    for par in (dict(T=.01), dict(T=0., flip=True)):
                        yield dict(elements=[['LAS', dict(P=3e5)], [mod, {}], ['M', dict(T=.05)], ['SP', dict(L=L, d=d)], ['M', par]],
                                   links=[[[0, 'po_Fr'], [1, 'po_Fr']], [[1, 'po_Bk'], [2, 'po_Fr' if rev else 'po_Bk']], [[2, 'po_Bk' if rev else 'po_Fr'], [3, 'po_Fr']],
                                          [[3, 'po_Bk'], [4, 'po_Fr']]])


def mechs(tier, a, b):
    for l in LOADS + LOSSY:
        yield l(b)
    yield LOADS[0](a)
    yield LOADS[3](a)
    # both mirrors: independent, joined by a spring, rigidly joined
    yield [['Z', a, [0]], ['M', 1e-3, [0]], ['Z', b, [1]], ['M', 2e-3, [1]], ['K', [6., None], [1]]]
    yield [['Z', b, [1]], ['M', 1e-3, [0]], ['SK', [9., None], [0, 1]], ['M', 2e-3, [1]], ['Z', a, [0]]]
    yield [['Z', a, [0]], ['Z', b, [0]], ['M', 1e-3, [0]]]


def cases_loop(tier):
    for net in cavities(tier):
        for i, m in enumerate(mechs(tier, 2, 4)):
            if tier == 'quick' and (i + (net['elements'][1][0] == 'PM')) % 2:
                continue
            yield dict(net=net, mech=m, style=('chain', 'star', 'conn')[i % 3])


def michelson(tier):
    """a beamsplitter with two end mirrors; any of the three moves"""
    ms = [[['Z', 2, [0]], ['M', 1e-3, [0]]], [['Z', 3, [0]], ['M', 1e-3, [0]], ['K', [20., None], [0]]], [['Z', 4, [0]], ['M', 2e-3, [0]]],
          [['Z', 3, [0]], ['M', 1e-3, [0]], ['Z', 4, [1]], ['M', 1e-3, [1]]], [['Z', 3, [0]], ['SK', [25., None], [0, 1]], ['Z', 4, [1]], ['M', 1e-3, [1]], ['M', 3e-3, [0]]],
          [['Z', 2, [0]], ['Z', 3, [0]], ['Z', 4, [0]], ['M', 4e-3, [0]]]]
    for par in MIR4[1:]:
        for d in (0., 3e-8):
            for sq in (0, 1):
                for mod in ('AM', 'PM'):
                    net = dict(elements=[['LAS', dict(P=1e6)], [mod, {}], ['M4', par], ['M', dict(T=.01)], ['M', dict(T=0.)], ['SP', dict(L=10., d=d)], ['SP', dict(L=2e5)]],
                               links=[[[0, 'po_Fr'], [1, 'po_Fr']], [[1, 'po_Bk'], [2, 'po_FrA']], [[2, 'po_FrB'], [5, 'po_Fr']], [[5, 'po_Bk'], [3, 'po_Fr']],
                                      [[2, 'po_BkA'], [6, 'po_Fr']], [[6, 'po_Bk'], [4, 'po_Bk' if sq else 'po_Fr']]])
                    for m in ms:
                        yield dict(net=net, mech=m, style='chain')


def cases_single(tier):
    for k, net in enumerate(lit_cases(1e6, ('AM', 'PM'))):
        for i, l in enumerate(LOADS + LOSSY):
            if tier == 'quick' and (i + k) % 3:
                continue
            yield dict(net=net, mech=l(0))


def cases_noise(tier):
    for k, net in enumerate(lit_cases(1e6, ('AM',))):
        for i, l in enumerate(LOADS):
            if tier == 'quick' and (i + k) % 3:
                continue
            yield dict(net=net, mech=l(0))
    for k, net in enumerate(cavities(tier)):
        if net['elements'][1][0] == 'PM':
            continue
        for i, m in enumerate(mechs(tier, 2, 4)):
            if tier == 'quick' and (i + k) % 2:
                continue
            if any(x[0] in ('D', 'SD') for x in m):
                continue
            yield dict(net=net, mech=m)
    for c in michelson(tier):
        if c['net']['elements'][1][0] == 'AM':
            yield c


def cases_port(tier):
    for i, (a, b) in enumerate(((0, 1), (5, 3))):
        for m in mechs(tier, a, b):
            yield dict(mech=m)
    # all trees of up to 3 elements around one and two mirrors
    one = [['M', 1e-3], ['K', [40., None]], ['D', .05], ['TS', None], ['K', [12., .1]]]
    ser = [['SK', [15., None]], ['SD', .3], ['CBL', .002], ['SM', 1e-3]]
    for s in ser:
        for a, b in itertools.product([None] + one, repeat=2):
            for two in (0, 1):
                net = [['Z', 0, [0]], s + [[0, 1]]]
                net += [a + [[0]]] if a else []
                net += [b + [[1]]] if b else []
                net += [['Z', 1, [1]]] if two else []
                yield dict(mech=net)


FAMILIES = [
    Family('force', cases_force, run_force, "fixed mirrors and beamsplitters lit from every port and pair of ports, cavities: static force and response to amplitude and phase modulation"),
    Family('port', cases_port, run_port, "mobility of one and two mirrors in all mechanical networks of up to 3 elements"),
    Family('single', cases_single, run_loop, "one moving mirror lit from every port and pair of ports with 9 mechanical loads (a third in the quick tier): every response"),
    Family('cavity', cases_loop, run_loop, "cavities (lengths, detunings, orientation) with either or both mirrors moving, alone, joined by a spring or rigidly: every response"),
    Family('michelson', michelson, run_loop, "Michelson interferometers with any mirror and the beamsplitter moving, alone, joined by a spring or rigidly: every response"),
    Family('noise', cases_noise, run_noise, "quantum noise of detectors, forces and displacements, with all cross spectra, in the same systems"),
]
