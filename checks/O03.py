# -*- coding: utf-8 -*-
"""
Quantum noise of detected power in linear networks.
"""
import numpy as np
from mc.core import Family
from mc import optref, optnets

ASSUMPTIONS = [
    "oracle: independent vacuum fields entering at every laser, photodiode and loss, propagated densely at +F and -F",
    "networks with a condition number above 1e5 are not judged",
]
F_AC = [20., 333., 1234.]


def run_noise(case, ctx):
    import phasor.readouts as ro
    F = np.array(F_AC)
    net, det = optref.with_detectors(case['net'], case.get('magic', 1))
    R = optref.Ref(net)
    if not R.ok or not all(np.linalg.cond(R.A(s * f)) < 1e5 for f in F_AC for s in (1, -1)):
        ctx.cls('ill posed')
        return
    sided = case.get('sided', 1)
    sys, objs = optref.build(net, F, **(dict(sided_spectra=2) if sided == 2 else {}))
    for i, (m, p) in enumerate(det):
        sys.insert(ro.NoiseReadout(portN=objs[m].Wpd.o), 'n{0}'.format(i))
    free = set(tuple(x) for x in optref.free_ports(case['net']))
    for i, (m, p) in enumerate(det):
        # a spectrum over both signs of the frequency has half the density
        got = sided * getattr(sys, 'n{0}'.format(i)).CSD['R', 'R']
        want = np.array([R.noise(m, p, f) for f in F_AC])
        lim = optref.H * optref.C / optref.LAM * np.max(abs(R.a0))**2
        ctx.close(got, want, lambda: "noise of detector {0} of {1}".format([m, p], net), rtol=1e-5, atol=1e-7 * lim)
        if net['elements'][m][0] == 'PD':
            # light leaving a passive network carries exactly its shot noise
            ctx.close(got + 0 * F, R.shot_noise(m, p) + 0 * F, lambda: "shot noise of detector {0} of {1}".format([m, p], net), rtol=1e-5, atol=1e-7 * lim)
            ctx.cls('shot noise')
        else:
            ctx.cls('internal')
        ctx.step(len(F))
    ctx.state(net, sided)
    ctx.trace()


def ok(net):
    return not any(t in ('PSEL', 'WPX') for t, par in net['elements'])


def gen(g, k, magic):
    def cases(tier):
        n = 0
        for net in g(tier):
            if not ok(net):
                continue
            n += 1
            if tier != 'quick' or n % k == 0:
                yield dict(net=net, magic=magic)
    return cases


def cases_sided(tier):
    k = 0
    for g, m in ((optnets.chains, 1), (optnets.cavities, 1), (optnets.four_ports, 0), (optnets.multi_ports, 0)):
        for net in g('quick'):
            if ok(net):
                k += 1
                if k % (41 if tier == 'quick' else 7) == 0:
                    yield dict(net=net, magic=m, sided=2)


FAMILIES = [
    Family('chain', gen(optnets.chains, 2, 1), run_noise, "sequences of up to 2 (3) oriented two-port elements (every second in the quick tier)"),
    Family('cavity', gen(optnets.cavities, 1, 1), run_noise, "two-mirror cavities around all sequences of up to 2 (3) elements, detectors outside and inside"),
    Family('beamsplitter', gen(optnets.four_ports, 3, 0), run_noise, "beamsplitter networks (every third in the quick tier)"),
    Family('multiport', gen(optnets.multi_ports, 4, 0), run_noise, "circulator and polarizing beamsplitter networks (every fourth in the quick tier)"),
    Family('two-sided', cases_sided, run_noise, "every 41st (thorough: 7th) of these networks read out with two sided spectra"),
]
