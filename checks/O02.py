# -*- coding: utf-8 -*-
"""
Responses of detected power to mirror motion and to modulators.
"""
import numpy as np
from mc.core import Family
from mc import optref, optnets

ASSUMPTIONS = [
    "oracle: first order sidebands, solved densely at +F and -F around the independently solved carrier",
    "networks with a condition number above 1e5 are not judged; drives: every mirror and beamsplitter position, every modulator",
]
F_AC = [20., 333., 1234.]


def run_ac(case, ctx):
    import phasor.readouts as ro
    F = np.array(F_AC)
    net, det = optref.with_detectors(case['net'], case.get('magic', 1))
    R = optref.Ref(net)
    if not R.ok or not all(np.linalg.cond(R.A(s * f)) < 1e5 for f in F_AC for s in (1, -1)):
        ctx.cls('ill posed')
        return
    drives = []
    sys, objs = optref.build(net, F)
    for e, (typ, par) in enumerate(net['elements']):
        if typ in ('M', 'M4'):
            drives.append((e, 'Z', objs[e].Z.d.o))
        elif typ in ('AM', 'PM'):
            drives.append((e, typ, objs[e].Drv.i))
            if typ == 'PM':
                drives.append((e, 'FM', objs[e].DrvFM.i))
        elif typ == 'AMPM':
            drives.append((e, 'AM', objs[e].DrvAM.i))
            drives.append((e, 'PM', objs[e].DrvPM.i))
            drives.append((e, 'FM', objs[e].DrvFM.i))
    if not drives:
        return
    for e, kind, d in drives:
        for i, (m, p) in enumerate(det):
            sys.insert(ro.ACReadout(portD=d, portN=objs[m].Wpd.o, include_noise=False), 'ac{0}{2}_{1}'.format(e, i, kind))
    for e, kind, d in drives:
        sb = [R.sidebands(e, 'PM' if kind == 'FM' else kind, f) for f in F_AC]
        # the phase is the integral of the frequency
        want = (1j / F if kind == 'FM' else 1.) * np.array([[R.power_response(s, m, p) for s in sb] for m, p in det])
        scale = max(abs(R.a0))**2 * (4 * np.pi / optref.LAM if kind == 'Z' else .5)
        for i, (m, p) in enumerate(det):
            got = getattr(sys, 'ac{0}{2}_{1}'.format(e, i, kind)).AC_sensitivity
            ctx.close(got, want[i], lambda: "response of detector {0} to {1} of {2}".format([m, p], [e, kind], net), rtol=1e-5, atol=1e-7 * scale)
            ctx.step(len(F))
        ctx.cls(kind)
    ctx.state(net)
    ctx.trace()


def has(net, *types):
    return any(t in types for t, p in net['elements'])


def chain_cases(tier):
    for n in optnets.chains(tier, ['M', 'ML', 'MT', 'SP', 'ROT', 'FAR', 'QWP', 'AM', 'PM', 'AMPM'] if tier == 'quick' else None):
        if has(n, 'M', 'AM', 'PM', 'AMPM'):
            yield dict(net=n)


def cavity_cases(tier):
    names = ['SP', 'ROT', 'QWP', 'PMIR', 'M', 'PM', 'AM', 'AMPM'] if tier == 'quick' else ['SP', 'ROT', 'FAR', 'WP', 'QWP', 'PMIR', 'M', 'AM', 'PM', 'AMPM']
    for i, n in enumerate(optnets.cavities(tier, names)):
        yield dict(net=n)


def bs_cases(tier):
    for i, n in enumerate(optnets.four_ports(tier)):
        if tier != 'quick' or i % 5 == 0:
            yield dict(net=n, magic=0)


def multi_cases(tier):
    for i, n in enumerate(optnets.multi_ports(tier)):
        if has(n, 'M') and (tier != 'quick' or i % 4 == 0):
            yield dict(net=n, magic=0)


FAMILIES = [
    Family('chain', chain_cases, run_ac, "all sequences of up to 2 (3) oriented two-port elements with a mirror or a modulator"),
    Family('cavity', cavity_cases, run_ac, "two-mirror cavities around all sequences of up to 2 (3) elements, every mirror and modulator driven"),
    Family('beamsplitter', bs_cases, run_ac, "beamsplitter networks (a fifth of those of O01 in the quick tier, all in the thorough tier)"),
    Family('multiport', multi_cases, run_ac, "circulator, selector and polarizing beamsplitter networks with moving mirrors"),
]
