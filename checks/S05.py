# -*- coding: utf-8 -*-
"""
The solver chosen for a system makes no difference to any readout.
"""
import itertools
import numpy as np
from mc.core import Family
from mc import zoo

ASSUMPTIONS = [
    "the solvers are independent of each other and cross-checked; M01/M02 check each against dense algebra",
]
SOLVERS = ['loop_LUQ', 'scisparse', 'scisparse_superLU', 'loop_fast_unstable']
# the scalar parameters which may be zero, or which need be kept within range
FACTORS = dict(quick=(.5, 1.3), thorough=(.25, .5, .8, 1.3, 1.9))


def run(case, ctx):
    z = zoo.ALL[case['zoo']]()
    par = dict((p, z.params[p] * f) for p, f in case['par'].items())
    F = {'scalar': 7., 'array': np.array([3., 40.]), '2d': np.array([[1., 20.], [300., 4e3]])}[case['F']]
    res = {}
    for s in case['solvers']:
        res[s] = zoo.Built(z, F_AC=F, params=par, kw=dict(solver_name=s)).all()
        ctx.step()
    s0 = case['solvers'][0]
    for s in case['solvers'][1:]:
        zoo.same(ctx, res[s], res[s0], lambda: "system {0} with {1}, F_AC {2}: solver {3} compared to {4}".format(case['zoo'], par, case['F'], s, s0))
    # and the default solver is one of these
    ctx.state(case)
    ctx.trace(len(case['solvers']))
    ctx.cls(case['zoo'])


def cases(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        pars = [{}]
        for p in sorted(z.params):
            for f in FACTORS[tier]:
                pars.append({p: f})
        for p, q in itertools.combinations(sorted(z.params), 2):
            if tier == 'quick':
                pars.append({p: .5, q: 1.3})
            else:
                for f, g in itertools.product(FACTORS[tier], repeat=2):
                    pars.append({p: f, q: g})
        for i, par in enumerate(pars):
            if tier == 'quick' and zn in ('pdh', 'shg', 'hom') and i % 2:
                continue
            for F in (('scalar', 'array', '2d') if i == 0 or tier == 'thorough' else ('array',)):
                yield dict(zoo=zn, par=par, F=F, solvers=SOLVERS)


# ---- networks whose couplings are real (no spaces) with complex sources, in all small shapes
def build_real(net, solver, F):
    import phasor.system as system
    import phasor.optics as o
    import phasor.readouts as ro
    kind, T, ph, n = net
    s = system.BGSystem(F_AC=F, solver_name=solver)
    ends = []
    for i, p in enumerate(ph):
        s.insert(o.Laser(F=s.F_carrier_1064, power_W=1. + i, phase_deg=p), 'L%d' % i)
    if kind == 'splitter':
        s.insert(o.Mirror(T_hr=T, AOI_deg=45), 'm')
        for l, port in zip(range(len(ph)), ('po_FrA', 'po_BkB', 'po_BkA')):
            s.bond(getattr(s, 'L%d' % l).po_Fr, getattr(s.m, port))
        ends = [s.m.po_FrB] + [s.m.po_BkA] * (len(ph) < 3) + [s.m.po_BkB] * (len(ph) < 2)
    else:
        # a row of mirrors between the lasers, with idle or seen through photodiodes between them
        last = s.L0.po_Fr
        for i in range(n):
            m = s.insert(o.Mirror(T_hr=T), 'm%d' % i)
            s.insert(o.MagicPD(), 'd%d' % i)
            s.bond(last, s['d%d' % i].po_Fr)
            s.bond(s['d%d' % i].po_Bk, s['m%d' % i].po_Fr)
            s.insert(ro.DCReadout(port=s['d%d' % i].Wpd.o), 'x%d' % i)
            last = s['m%d' % i].po_Bk
        if len(ph) > 1:
            s.insert(o.MagicPD(), 'dl')
            s.bond(last, s.dl.po_Fr)
            s.bond(s.dl.po_Bk, s.L1.po_Fr)
            s.insert(ro.DCReadout(port=s.dl.Wpd.o), 'xl')
            names = ['x%d' % i for i in range(n)] + ['xl']
        else:
            ends = [last]
            names = ['x%d' % i for i in range(n)]
    if kind == 'splitter':
        names = []
    for j, e in enumerate(ends):
        s.insert(o.PD(), 'R%d' % j)
        s.bond(e, s['R%d' % j].po_Fr)
        s.insert(ro.DCReadout(port=s['R%d' % j].Wpd.o), 'r%d' % j)
        names.append('r%d' % j)
    out = dict((nm, s[nm].DC_readout) for nm in names)
    return out


def run_real(case, ctx):
    F = 7. if case['F'] == 'scalar' else np.array([3., 40.])
    net = case['net']
    ref = build_real(net, SOLVERS[0], F)
    for sv in SOLVERS[1:]:
        got = build_real(net, sv, F)
        for k in ref:
            ctx.close(got[k], ref[k], lambda: "power {0} of {1} with solver {2} compared to {3}".format(k, net, sv, SOLVERS[0]), rtol=1e-7, atol=1e-9)
            ctx.step()
    if net[0] == 'splitter' and len(net[2]) == 2:
        # two lasers on a beamsplitter interfere
        t, r = np.sqrt(net[1]), np.sqrt(1 - net[1])
        a, b = [np.sqrt(1. + i) * np.exp(1j * np.pi * p / 180) for i, p in enumerate(net[2])]
        want = sorted([abs(t * b + r * a)**2, abs(t * a - r * b)**2]), sorted([abs(t * b - r * a)**2, abs(t * a + r * b)**2])
        got = sorted(float(np.real(np.ravel(x)[0])) for x in ref.values())
        ctx.require(np.allclose(got, want[0], rtol=1e-6) or np.allclose(got, want[1], rtol=1e-6), lambda: "powers {0} behind the beamsplitter of {1}, expected {2}".format(got, net, want))
    ctx.state(case)
    ctx.trace(len(SOLVERS))
    ctx.cls(net[0])


def cases_real(tier):
    P = (0, 40, 90, 135) if tier == 'quick' else (0, 17, 40, 90, 135, 180, 260)
    for F in ('scalar', 'array'):
        for T in (.5, .1) if tier == 'quick' else (.5, .1, .9, 0., 1.):
            for p in P:
                yield dict(net=['splitter', T, [p], 0], F=F)
                for q in P:
                    yield dict(net=['splitter', T, [p, q], 0], F=F)
            for n in (1, 2, 3):
                if T in (0., 1.) and n > 1:
                    continue
                for p in P:
                    yield dict(net=['row', T, [p], n], F=F)
                    yield dict(net=['row', T, [p, P[1]], n], F=F)


def cases_iter(tier):
    for zn in sorted(zoo.ALL):
        for n in (6, 13) if tier == 'quick' else (4, 5, 6, 7, 13, 30):
            for sv in SOLVERS[:1] if tier == 'quick' else SOLVERS:
                yield dict(zoo=zn, n=n, solver=sv)


def run_iter(case, ctx):
    """a fixed number of iterations, beyond those needed, gives the converged answers"""
    z = zoo.ALL[case['zoo']]()
    F = np.array([3., 40.])
    got = zoo.Built(z, F_AC=F, kw=dict(exact_order=case['n'], solver_name=case['solver'])).all()
    want = zoo.Built(z, F_AC=F, kw=dict(solver_name=case['solver'])).all()
    zoo.same(ctx, got, want, lambda: 'system {0} after {1} iterations compared to the converged'.format(case['zoo'], case['n']))
    ctx.step()
    ctx.state(case)
    ctx.trace(2)
    ctx.cls('iterations')


FAMILIES = [
    Family('iterations', cases_iter, run_iter, "14 systems with 6 and 13 (4..30) iterations asked for, compared to those converged by themselves"),
    Family('solvers', cases, run, "14 systems, every parameter (and pair of parameters) at 3 (6) values, scalar/1d/2d frequencies, four solvers"),
    Family('real', cases_real, run_real, "networks of mirrors without phases (real couplings) lit by one or two lasers of all pairs of 4 (7) phases, four solvers; interference on a beamsplitter", chunk=8),
]
