# -*- coding: utf-8 -*-
"""
Optical networks: fields and powers are the solution of the scattering equations of the elements.
"""
import numpy as np
from mc.core import Family
from mc import optref, optnets

ASSUMPTIONS = [
    "oracle: dense solution of the scattering equations in numpy, with the scattering matrix of every element written down independently",
    "networks whose scattering equations have a condition number above 1e5 are not judged",
]


def run_dc(case, ctx):
    import phasor.readouts as ro
    for magic in ((0, 1) if case.get('both', True) else (1,)):
        net, det = optref.with_detectors(case['net'], magic)
        R = optref.Ref(net)
        if not R.ok:
            ctx.cls('ill posed')
            return
        sys, objs = optref.build(net, np.array([0.]), **case.get('kw', {}))
        for i, (e, p) in enumerate(det):
            sys.insert(ro.DCReadout(port=objs[e].Wpd.o), 'dc{0}'.format(i))
        sc = max(abs(R.a0))**2
        for i, (e, p) in enumerate(det):
            got = getattr(sys, 'dc{0}'.format(i)).DC_readout
            ctx.close(got, R.power(e, p), lambda: "power at detector {0} of {1}".format([e, p], net), rtol=1e-6, atol=1e-8 * sc)
            ctx.step()
        if not magic:
            # the detectors absorb everything which is not lost
            tin = sum(par['P'] for typ, par in net['elements'] if typ == 'LAS')
            tout = sum(getattr(sys, 'dc{0}'.format(i)).DC_readout for i in range(len(det)))
            back = sum(R.power(e, 'po_Fr') for e, (typ, par) in enumerate(net['elements']) if typ == 'LAS')
            loss = any(par.get('L') or par.get('Lt') or typ == 'PSEL' for typ, par in net['elements'])
            if not loss:
                ctx.close(tout + back, tin, lambda: "power leaving {0}".format(net), rtol=1e-6)
                ctx.cls('lossless')
            else:
                ctx.require(tout + back <= tin * (1 + 1e-8), lambda: "more power leaves than enters {0}".format(net))
    ctx.state(net)
    ctx.trace()
    ctx.cls('{0} elements'.format(len(case['net']['elements'])))


def wrap(gen):
    return lambda tier: [dict(net=n) for n in gen(tier)]


def cases_solvers(tier):
    for i, n in enumerate(optnets.cavities('quick', ['SP', 'ROT', 'PMIR', 'M'])):
        for s in ('loop_LUQ', 'scisparse'):
            if tier != 'quick' or i % 3 == 0:
                yield dict(net=n, kw=dict(solver_name=s))


FAMILIES = [
    Family('chain', wrap(optnets.chains), run_dc, "all sequences of up to 2 (3) oriented two-port elements behind a laser"),
    Family('cavity', wrap(optnets.cavities), run_dc, "two-mirror cavities around all sequences of up to 2 (3) elements"),
    Family('beamsplitter', wrap(optnets.four_ports), run_dc, "one beamsplitter with every combination of stubs or with two ports joined by every loop; two beamsplitters joined by two arms in every way"),
    Family('multiport', wrap(optnets.multi_ports), run_dc, "circulators, polarization selectors, polarizing beamsplitters with every combination of stubs"),
    Family('solver', cases_solvers, run_dc, "cavities with the other solvers"),
]
