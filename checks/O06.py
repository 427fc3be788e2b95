# -*- coding: utf-8 -*-
"""
Detection: radio frequency modulation and demodulation, quadratures against a local oscillator.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import optref, rfref
from mc.optref import H, C, LAM
from mc.optnets import Net

ASSUMPTIONS = [
    "oracle: fields as Fourier series in the modulation frequency (orders truncated as in the simulator), solved densely for the carrier orders and for both sidebands of every order; "
    "powers and mixer outputs are coefficients of products",
    "conventions of the simulator: drives and oscillators are amplitudes, static radio frequency powers are amplitudes, small signals are coefficients",
]
F_AC = [20., 777.]
F_RF = 3.1e4
Q = H * C / LAM


def closed(net):
    """vacuum at every free port"""
    j = net.json()
    for e, p in optref.free_ports(j):
        v = net.add(['VAC', {}])
        net.link(e, p, v, 'po_Fr')
    return net.json()


# demodulation ---------------------------------------------------------------

def build_rf(case):
    import phasor.system as system
    import phasor.readouts as ro
    import phasor.signals as S
    from phasor.base import Frequency
    net, drives, lo = case['net'], case['drives'], complex(*case['lo'])
    sys = system.BGSystem(F_AC=np.array(F_AC))
    sys.own.Fm = Frequency(F_Hz=F_RF, order=case['K'])
    objs = []
    for e, (typ, par) in enumerate(net['elements']):
        sys.insert(optref.element(typ, par, sys), 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    for k, ((a, p), (b, q)) in enumerate(net['links']):
        if k % 2:
            a, p, b, q = b, q, a, p
        sys.bond(getattr(objs[a], p), getattr(objs[b], q))

    def drive(e, kind):
        if kind == 'Z':
            return objs[e].Z.d.o
        return objs[e].Drv.i if net['elements'][e][0] != 'AMPM' else getattr(objs[e], 'Drv' + kind).i

    def gen(X, nm):
        sys.insert(S.SignalGenerator(F=sys.Fm, amplitude=abs(X), phase_deg=np.degrees(np.angle(X))), nm)
        return getattr(sys, nm).ps_Out
    for j, (e, kind, X) in enumerate(case['X']):
        d = objs[e].Drv if net['elements'][e][0] != 'AMPM' else getattr(objs[e], 'Drv' + kind)
        sys.bond(gen(complex(*X), 'gen{0}'.format(j)), d)
    osc = gen(lo, 'osc')
    ports = {}
    for j, (e, p) in enumerate(case['det']):
        sys.insert(S.Mixer(), 'mix{0}'.format(j))
        m = getattr(sys, 'mix{0}'.format(j))
        sys.bond(objs[e].Wpd, m.ps_In)
        sys.bond(osc, m.LO)
        for nm, port in (('P', objs[e].Wpd.o), ('I', m.ps_R_I.o), ('Q', m.ps_R_Q.o)):
            sys.insert(ro.DCReadout(port=port), 'dc{0}{1}'.format(j, nm))
            for i, (de, kind) in enumerate(drives):
                sys.insert(ro.ACReadout(portD=drive(de, kind), portN=port, include_noise=False), 'ac{0}{1}{2}'.format(j, nm, i))
            ports['{0}{1}'.format(j, nm)] = port
    if case['noise']:
        sys.insert(ro.NoiseReadout(port_map=ports), 'noise')
    out = {}
    for j in range(len(case['det'])):
        for nm in 'PIQ':
            out['static', j, nm] = getattr(sys, 'dc{0}{1}'.format(j, nm)).DC_readout
            for i in range(len(drives)):
                out['response', j, nm, i] = getattr(sys, 'ac{0}{1}{2}'.format(j, nm, i)).AC_sensitivity
    if case['noise']:
        for a in ports:
            for b in ports:
                out['noise', a, b] = sys.noise.CSD.get((a, b), 0) / Q
    return out


def want_rf(case):
    net, drives, lo = case['net'], case['drives'], complex(*case['lo'])
    R = rfref.Ref(net, dict(f=F_RF, K=case['K'], X=dict(((e, k), complex(*X)) for e, k, X in case['X'])))
    if not R.ok:
        return None
    out = {}
    # products of the oscillator (orders +1 and -1) with the detected power
    mix = dict(P=[(1., 0)], I=[(.5 * lo, -1), (.5 * np.conj(lo), 1)], Q=[(.5j * lo, -1), (-.5j * np.conj(lo), 1)])
    for j, (e, p) in enumerate(case['det']):
        for nm, parts in mix.items():
            out['static', j, nm] = sum(c * R.power_k(e, p, k) for c, k in parts)
            for i, (de, kind) in enumerate(drives):
                v = []
                for F in F_AC:
                    src = R.drive_src(de, kind)
                    sb = R.solve(F, src), R.solve(-F, src)
                    v.append(sum(c * R.response_k(sb, e, p, k) for c, k in parts))
                out['response', j, nm, i] = np.array(v)
    if case['noise']:
        names = ['{0}{1}'.format(j, nm) for j in range(len(case['det'])) for nm in 'PIQ']
        rows = [[(c, e, p, k) for c, k in mix[nm]] for e, p in case['det'] for nm in 'PIQ']
        N = [R.noise_rows(rows, F) / Q for F in F_AC]
        for a, x in enumerate(names):
            for b, y in enumerate(names):
                out['noise', x, y] = np.array([n[a, b] for n in N])
    return out, np.max(abs(R.a0))**2


def run_rf(case, ctx):
    w = want_rf(case)
    if w is None:
        ctx.cls('ill posed')
        return
    want, P = w
    got = build_rf(case)
    for key, x in want.items():
        sc = P * abs(complex(*case['lo']))
        if key[0] == 'response' and case['drives'][key[3]][1] == 'Z':
            sc *= 4 * np.pi / LAM
        ctx.close(got[key], x, lambda: "{0} of {1}".format(key, case), rtol=1e-5, atol=1e-7 * sc)
        ctx.step(np.size(x))
    ctx.cls('{0} modulators, order {1}'.format(len(case['X']), case['K']))
    ctx.state(case)
    ctx.trace()


MODS = {
    'AM': (['AM', {}], ['AM']),
    'PM': (['PM', {}], ['PM']),
    'AMPM': (['AMPM', {}], ['AM', 'PM']),
}
X1, X2 = [.25, 0.], [.1, -.2]
LO = [[1., 0.], [.4, .9]]


def modulators(net, seq, X):
    """chain of modulators after a laser: returns the end and the drives"""
    l = net.add(['LAS', dict(P=1., phase_deg=25)])
    end = l, 'po_Fr'
    drv = []
    for n, rev in seq:
        el, kinds = MODS[n]
        e = net.add(el)
        a, b = ('po_Bk', 'po_Fr') if rev else ('po_Fr', 'po_Bk')
        net.link(end[0], end[1], e, a)
        end = e, b
        for k in kinds:
            drv.append([e, k, X[len(drv) % len(X)]])
    return end, drv


SEQS = [[('PM', 0)], [('AM', 1)], [('AMPM', 0)], [('PM', 1), ('AM', 0)], [('AM', 0), ('PM', 0)], [('PM', 0), ('PM', 1)]]


def cases_chain(tier):
    """modulators, delays and losses in every order, demodulated at the end"""
    quick = tier == 'quick'
    k = 0
    for K in (1, 2):
        for seq in SEQS:
            for X in ([X1], [X2, X1]):
                for lo in LO:
                    for mid in ('', 'SP', 'M', 'SPM'):
                        k += 1
                        if K == 2 and (mid or (quick and k % 8)):
                            continue
                        if quick and K == 1 and k % 3:
                            continue
                        net = Net()
                        end, drv = modulators(net, seq, X)
                        if 'SP' in mid:
                            s = net.add(['SP', dict(L=2.3e3, d=1e-7)])
                            net.link(end[0], end[1], s, 'po_Bk')
                            end = s, 'po_Fr'
                        drives = [[e, kd] for e, kd, x in drv]
                        if 'M' in mid:
                            m = net.add(['M', dict(T=.6, L=.1)])
                            net.link(end[0], end[1], m, 'po_Fr')
                            end = m, 'po_Bk'
                            drives.append([m, 'Z'])
                        d = net.add(['PD', {}])
                        net.link(end[0], end[1], d, 'po_Fr')
                        yield dict(net=closed(net), X=drv, lo=lo, K=K, det=[[d, 'po_Fr']], drives=drives, noise=K == 1 or not quick)


def cases_cavity(tier):
    """reflection and transmission of a cavity"""
    quick = tier == 'quick'
    k = 0
    for seq in SEQS:
        for X in ([X1], [X2, X1]):
            for d in (0., 1.5e-8, -6e-8, LAM / 4):
                for L in (1.7e3, C / F_RF / 2):
                    for rev in (0, 1):
                        for inside in (0, 1):
                            k += 1
                            if quick and k % 7:
                                continue
                            if inside and seq not in SEQS[:2]:
                                continue
                            net = Net()
                            if inside:
                                # the modulator is between the mirrors
                                l = net.add(['LAS', dict(P=1., phase_deg=25)])
                                end, drv = (l, 'po_Fr'), []
                            else:
                                end, drv = modulators(net, seq, X)
                            r = net.add(['MPD', {}])
                            net.link(end[0], end[1], r, 'po_Bk')
                            m1 = net.add(['M', dict(T=.2, L=.02)])
                            net.link(r, 'po_Fr', m1, 'po_Fr' if rev else 'po_Bk')
                            s = net.add(['SP', dict(L=L, d=d)])
                            net.link(m1, 'po_Bk' if rev else 'po_Fr', s, 'po_Fr')
                            end = s, 'po_Bk'
                            if inside:
                                el, kinds = MODS[seq[0][0]]
                                m = net.add(el)
                                net.link(end[0], end[1], m, 'po_Fr')
                                end = m, 'po_Bk'
                                drv = [[m, kinds[0], X[0]]]
                            m2 = net.add(['M', dict(T=.05)])
                            net.link(end[0], end[1], m2, 'po_Fr')
                            t = net.add(['PD', {}])
                            net.link(m2, 'po_Bk', t, 'po_Fr')
                            drives = [[m1, 'Z'], [m2, 'Z']] + ([[drv[0][0], drv[0][1]]] if not quick else [])
                            yield dict(net=closed(net), X=drv, lo=LO[k % 2], K=1, det=[[r, 'po_Fr'], [t, 'po_Fr']], drives=drives, noise=k % 2 == 0)


def cases_mich(tier):
    """interferometer of unequal arms"""
    quick = tier == 'quick'
    k = 0
    for seq in SEQS[:5]:
        for X in ([X1], [X2, X1]):
            for dx in (0., 3e-8, LAM / 8):
                for LX, LY in ((2e3, 2e3), (2e3, 3.1e3)):
                    k += 1
                    if quick and k % 3:
                        continue
                    net = Net()
                    end, drv = modulators(net, seq, X)
                    bs = net.add(['M4', dict(T=.5, L=.01)])
                    net.link(end[0], end[1], bs, 'po_FrA')
                    for p, L, d in (('po_BkA', LX, dx), ('po_FrB', LY, 0.)):
                        s = net.add(['SP', dict(L=L, d=d)])
                        net.link(bs, p, s, 'po_Fr')
                        m = net.add(['M', dict(T=.01)])
                        net.link(s, 'po_Bk', m, 'po_Fr')
                        if p == 'po_BkA':
                            mx = m
                    t = net.add(['PD', {}])
                    net.link(bs, 'po_BkB', t, 'po_Fr')
                    drives = [[mx, 'Z'], [bs, 'Z'], [drv[0][0], drv[0][1]]]
                    yield dict(net=closed(net), X=drv, lo=LO[k % 2], K=1, det=[[t, 'po_Fr']], drives=drives, noise=k % 2 == 0 or not quick)


# quadratures ----------------------------------------------------------------

OUTS = ['rtWpdI', 'rtWpdQ', 'rtQuantumI', 'rtQuantumQ', 'RinI', 'RadQ', 'rtWpdCmn']


def hd_net(case):
    """(network, element of the quadrature detector, [element, port] of the oscillator, drives)"""
    net = Net()
    l = net.add(['LAS', dict(P=2., phase_deg=20)])
    am = net.add(['AM', {}])
    net.link(l, 'po_Fr', am, 'po_Fr')
    pm = net.add(['PM', {}])
    net.link(am, 'po_Bk', pm, 'po_Bk')
    end = pm, 'po_Fr'
    drives = [[am, 'AM'], [pm, 'PM']]
    hd = net.add(['MPD', {}])
    if case['type'] == 'line':
        for n in case['seq']:
            e = net.add(dict(SP=['SP', dict(L=1e5, d=1e-7)], M=['M', dict(T=.4)], ROT=['ROT', dict(deg=30)])[n])
            net.link(end[0], end[1], e, 'po_Fr')
            end = e, 'po_Bk'
            if n == 'M':
                drives.append([e, 'Z'])
    elif case['type'] == 'cavity':
        m1 = net.add(['M', dict(T=.2, L=.02)])
        net.link(end[0], end[1], m1, 'po_Bk')
        s = net.add(['SP', dict(L=5e4, d=case['d'])])
        net.link(m1, 'po_Fr', s, 'po_Fr')
        m2 = net.add(['M', dict(T=.1)])
        net.link(s, 'po_Bk', m2, 'po_Fr')
        drives += [[m1, 'Z'], [m2, 'Z']]
        end = m2, 'po_Bk'
    else:
        bs = net.add(['M4', dict(T=.5)])
        net.link(end[0], end[1], bs, 'po_FrA')
        for p, d in (('po_BkA', case['d']), ('po_FrB', 0.)):
            s = net.add(['SP', dict(L=2e4, d=d)])
            net.link(bs, p, s, 'po_Fr')
            m = net.add(['M', dict(T=.02)])
            net.link(s, 'po_Bk', m, 'po_Fr')
            drives.append([m, 'Z'])
        end = bs, 'po_BkB'
    net.link(end[0], end[1], hd, 'po_Fr')
    t = net.add(['PD', {}])
    net.link(hd, 'po_Bk', t, 'po_Fr')
    src = dict(laser=(l, 'po_Fr'), am=(am, 'po_Bk'), pm=(pm, 'po_Fr'), self=None)[case['src']]
    return closed(net), hd, src, drives


def freq_last(x, n):
    """answers which do not depend on frequency have no frequency axis"""
    x = np.asarray(x)
    return x if x.ndim > n else x[..., None] * np.ones(len(F_AC))


def run_hd(case, ctx):
    import phasor.system as system
    import phasor.readouts as ro
    import phasor.optics as o
    net, hd, src, drives = hd_net(case)
    sys = system.BGSystem(F_AC=np.array(F_AC), **(dict(sided_spectra=2) if case.get('sided') == 2 else {}))
    objs = []
    for e, (typ, par) in enumerate(net['elements']):
        if e == hd:
            kw = dict(source_port=getattr(objs[src[0]], src[1]).o) if src else {}
            el = o.HiddenVariableHomodynePD(phase_deg=case['deg'], include_quanta=True, include_relative=True, **kw)
        else:
            el = optref.element(typ, par, sys)
        sys.insert(el, 'el{0}'.format(e))
        objs.append(getattr(sys, 'el{0}'.format(e)))
    for (a, p), (b, q) in net['links']:
        sys.bond(getattr(objs[a], p), getattr(objs[b], q))
    det = objs[hd]
    dports = [objs[e].Z.d.o if k == 'Z' else objs[e].Drv.i for e, k in drives]
    for n in OUTS:
        sys.insert(ro.DCReadout(port=getattr(det, n).o), 'dc' + n)
        for i, d in enumerate(dports):
            sys.insert(ro.ACReadout(portD=d, portN=getattr(det, n).o, include_noise=False), 'ac{0}{1}'.format(n, i))
    for i, d in enumerate(dports):
        sys.insert(ro.HomodyneACReadout(portNI=det.rtQuantumI.o, portNQ=det.rtQuantumQ.o, portD=d, phase_deg=case['rot']), 'hac{0}'.format(i))
    sys.insert(ro.NoiseReadout(port_map=dict((n, getattr(det, n).o) for n in OUTS)), 'noise')

    R = optref.Ref(net)
    a = R.inc(R.a0, hd, 'po_Fr')

    def lofield(x):
        return R.out(x, src[0], src[1]) if src else R.inc(x, hd, 'po_Fr')
    lo = lofield(R.a0)
    Pl, Pa = np.sum(abs(lo)**2), np.sum(abs(a)**2)
    if min(Pl, Pa) < 1e-6:
        ctx.cls('dark')
        return
    N, Nr = Pl**.5, (Pl * Pa)**.5
    qu = (2 / Q)**.5
    # every output is real part of  ph conj(oscillator) field  over its norm
    spec = {}
    for n in OUTS[:6]:
        ph = np.exp(1j * np.deg2rad(case['deg'])) * (1j if n.endswith('Q') else 1)
        spec[n] = (ph, qu / N if 'Quantum' in n else 1 / Nr if n.startswith('R') else 1 / N)

    def static(n):
        if n == 'rtWpdCmn':
            return ((Pa + Pl) if src else Pa) / N
        ph, g = spec[n]
        return g * np.real(ph * np.sum(np.conj(lo) * a))

    def lin(n):
        """the coefficients of (field at +F, conjugate of the field at -F) of detector and of oscillator"""
        if n == 'rtWpdCmn':
            return (np.conj(a) / N, a / N, np.conj(lo) / N * bool(src), lo / N * bool(src))
        ph, g = spec[n]
        return (g / 2 * ph * np.conj(lo), g / 2 * np.conj(ph) * lo, g / 2 * np.conj(ph * a), g / 2 * ph * a)

    def resp(n, sb):
        c = lin(n)
        return (np.sum(c[0] * R.inc(sb[0], hd, 'po_Fr')) + np.sum(c[1] * np.conj(R.inc(sb[1], hd, 'po_Fr')))
                + np.sum(c[2] * lofield(sb[0])) + np.sum(c[3] * np.conj(lofield(sb[1]))))

    scale = dict((n, (1 if n == 'rtWpdCmn' else spec[n][1] * N) * (Pa**.5 + Pl**.5)) for n in OUTS)
    for n in OUTS:
        ctx.close(getattr(sys, 'dc' + n).DC_readout, static(n), lambda: "static {0} of {1}".format(n, case), rtol=1e-6, atol=1e-8 * scale[n])
    sbs = [[R.sidebands(e, k, F) for F in F_AC] for e, k in drives]
    for i, (e, k) in enumerate(drives):
        for n in OUTS:
            want = np.array([resp(n, sb) for sb in sbs[i]])
            ctx.close(getattr(sys, 'ac{0}{1}'.format(n, i)).AC_sensitivity, want, lambda: "{0} of {1} driven by {2}".format(n, case, [e, k]),
                      rtol=1e-6, atol=1e-8 * scale[n] * (4 * np.pi / LAM if k == 'Z' else 1))
            ctx.step(len(F_AC))
    # noise
    CSD = np.zeros((len(F_AC), len(OUTS), len(OUTS)), dtype=complex)
    ip = R.idx[R.partner[hd, 'po_Fr']]
    il = R.idx[src[0], src[1]] if src else ip
    for f, F in enumerate(F_AC):
        rows = []
        for n in OUTS:
            c = lin(n)
            row = []
            for sgn in (1, -1):
                w = np.zeros(2 * len(R.idx), dtype=complex)
                w[2 * ip:2 * ip + 2] += c[0] if sgn == 1 else c[1]
                w[2 * il:2 * il + 2] += c[2] if sgn == 1 else c[3]
                M = R.A(sgn * F)
                v = np.linalg.solve(M.T if sgn == 1 else np.conj(M.T), w)
                row += [v[2 * j + pol] * amp for j, pol, amp in R.vacua()]
            rows.append(row)
        rows = np.array(rows)
        # a spectrum over both signs of the frequency has half the density
        CSD[f] = Q / case.get('sided', 1) * np.dot(rows, np.conj(rows.T))
    for x, n in enumerate(OUTS):
        for y, m in enumerate(OUTS):
            ctx.close(sys.noise.CSD.get((n, m), 0) * np.ones(len(F_AC)), CSD[:, x, y], lambda: "noise {0} {1} of {2}".format(n, m, case),
                      rtol=1e-6, atol=1e-8 * scale[n] * scale[m] * Q)
            ctx.step(len(F_AC))
    # rotated readout of the quadratures
    th = np.deg2rad(case['rot'])
    M = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
    sub = CSD[:, 2:4, 2:4]
    rotN = np.array([np.dot(M, np.dot(s, M.T)) for s in sub])
    for i, (e, k) in enumerate(drives):
        h = getattr(sys, 'hac{0}'.format(i))
        s = np.array([[resp(n, sb) for sb in sbs[i]] for n in OUTS[2:4]])
        s = np.dot(M, s)
        sc = scale[OUTS[2]] * (4 * np.pi / LAM if k == 'Z' else 1)
        ctx.close(freq_last(h.AC_sensitivity_IQ, 1), s, lambda: "rotated response of {0} to {1}".format(case, [e, k]), rtol=1e-6, atol=1e-8 * sc)
        ctx.close(h.AC_sensitivity, s[0], lambda: "rotated response of {0} to {1}".format(case, [e, k]), rtol=1e-6, atol=1e-8 * sc)
        ctx.close(np.moveaxis(freq_last(h.AC_CSD_IQ, 2), -1, 0), rotN, lambda: "rotated noise of {0}".format(case), rtol=1e-6, atol=1e-7)
        by = h.AC_PSD_by_source
        ctx.close(sum(by.values()), rotN[:, 0, 0], lambda: "sum of the noise densities of all sources of {0}".format(case), rtol=1e-6, atol=1e-7)
        ctx.close(h.AC_PSD, rotN[:, 0, 0], lambda: "rotated noise density of {0}".format(case), rtol=1e-6, atol=1e-7)
        if np.all(abs(s[0]) > 1e-6 * sc) and np.all(rotN[:, 0, 0].real > 1e-6):
            ctx.close(h.AC_noise_limited_sensitivity, rotN[:, 0, 0].real**.5 / abs(s[0]), lambda: "noise over response of {0} to {1}".format(case, [e, k]), rtol=1e-5)
        ev = np.array([np.linalg.eigvalsh(np.real(r)) for r in rotN])
        el = h.AC_CSD_ellipse
        ctx.close(el.min, ev[:, 0], lambda: "smallest noise of {0}".format(case), rtol=1e-5, atol=1e-6)
        ctx.close(el.max, ev[:, 1], lambda: "largest noise of {0}".format(case), rtol=1e-5, atol=1e-6)
        ctx.step(6 * len(F_AC))
        derived(h, case, s, sc, rotN, ctx)
    ctx.cls(case['type'])
    ctx.state(case)
    ctx.trace()


def derived(h, case, s, sc, N, ctx):
    """what follows from response s and noise N of the two quadratures"""
    what = lambda x: lambda: "{0} of {1}".format(x, case)
    one = np.ones(len(F_AC))
    Nr = np.real(N)
    big = max(abs(Nr).max(), 1e-3)
    if np.any(Nr[:, 0, 0] < 1e-4 * big) or np.any(Nr[:, 1, 1] < 1e-4 * big) or np.any(np.linalg.det(Nr) < 1e-6 * big**2):
        ctx.cls('noiseless quadrature')
        return
    el = h.AC_CSD_ellipse
    ctx.close(el.Imin + 0 * one, Nr[:, 0, 0] - Nr[:, 0, 1]**2 / Nr[:, 1, 1], what("noise of I given Q"), rtol=1e-5, atol=1e-6 * big)
    ctx.close(el.Qmin + 0 * one, Nr[:, 1, 1] - Nr[:, 0, 1]**2 / Nr[:, 0, 0], what("noise of Q given I"), rtol=1e-5, atol=1e-6 * big)
    sn = h.AC_CSD_ellipse_normSN
    ev = np.array([np.linalg.eigvalsh(n) for n in Nr])
    ctx.close(sn.min * ev[:, 1], sn.max * ev[:, 0], what("ratio of the extreme noises relative to shot noise"), rtol=1e-5, atol=1e-6 * abs(sn.max * ev[:, 1]).max())
    ctx.close(np.moveaxis(freq_last(h.AC_CSD_IQ_norm, 2), -1, 0), N / (Nr[:, 0, 0] * Nr[:, 1, 1])[:, None, None]**.5, what("normalized noise"), rtol=1e-5, atol=1e-6)
    ctx.step(5 * len(F_AC))
    size = np.sum(abs(s)**2, axis=0)
    if np.any(size < 1e-6 * sc**2):
        ctx.cls('no response')
        return
    SIQ = np.einsum('if,jf->ijf', s, np.conj(s))
    ctx.close(freq_last(h.AC_signal_matrix, 2), np.transpose(SIQ, (1, 0, 2)), what("signal matrix"), rtol=1e-5, atol=1e-6 * sc**2)
    want = np.array([1 / np.real(np.dot(s[:, f], np.linalg.solve(Nr[f], np.conj(s[:, f]))))**.5 for f in range(len(F_AC))])
    ctx.close(h.AC_noise_limited_sensitivity_optimal + 0 * one, want, what("best sensitivity"), rtol=1e-5)
    # a further rotation
    for deg in (25., -70.):
        r = h.rotate_deg(deg)
        a = np.deg2rad(deg)
        c = np.array([np.cos(a), np.sin(a)])
        ctx.close(r.AC_sensitivity + 0 * one, np.dot(c, s), what("response rotated by {0}".format(deg)), rtol=1e-5, atol=1e-7 * sc)
        ctx.close(r.AC_PSD + 0 * one, np.einsum('i,fij,j->f', c, N, c), what("noise rotated by {0}".format(deg)), rtol=1e-5, atol=1e-6 * big)
        ctx.step(2 * len(F_AC))
    # the best angle
    best = []
    for f in range(len(F_AC)):
        w = np.linalg.eigvals(np.linalg.solve(Nr[f], np.real(SIQ[:, :, f])))
        best.append(1 / np.max(np.real(w))**.5)
    ctx.close(h.optimal_readout.AC_noise_limited_sensitivity + 0 * one, np.array(best), what("sensitivity at the best angle"), rtol=1e-4)
    ctx.step(2 * len(F_AC))


def cases_hd(tier):
    quick = tier == 'quick'
    degs = (0, 90, 30, -70) if quick else (0, 90, -90, 180, 30, -70, 135)
    k = 0
    for src in ('laser', 'am', 'pm', 'self'):
        for deg in degs:
            for seq in ([], ['SP'], ['M'], ['SP', 'M'], ['ROT', 'SP'], ['SP', 'M', 'SP']):
                yield dict(type='line', seq=seq, src=src, deg=deg, rot=(0, 40, -100)[k % 3])
                k += 1
            for d in (0., 2e-8, -1e-7):
                yield dict(type='cavity', d=d, src=src, deg=deg, rot=(0, 40, -100)[k % 3])
                yield dict(type='michelson', d=d + 1e-8, src=src, deg=deg, rot=(0, 40, -100)[k % 3])
                k += 1
        yield dict(type='cavity', d=2e-8, src=src, deg=30, rot=40, sided=2)
        yield dict(type='michelson', d=2e-8, src=src, deg=0, rot=-20, sided=2)


FAMILIES = [
    Family('demodulation', cases_chain, run_rf, "chains of one or two modulators (amplitude, phase, both; amplitudes, phases, directions) with delay and moving mirror, two oscillator phases, orders 1 and 2: static, response, noise of power and both mixer outputs", chunk=1),
    Family('cavity', cases_cavity, run_rf, "reflected and transmitted signals of modulated cavities: lengths, detunings, orientation, modulator before or inside", chunk=1),
    Family('michelson', cases_mich, run_rf, "modulated Michelson interferometers with equal and unequal arms: detuning, modulators", chunk=1),
    Family('quadratures', cases_hd, run_hd, "quadrature detectors on lines, cavities and Michelsons: 4 places of the oscillator, detection and readout phases, all 7 outputs with all cross spectra", chunk=2),
]
