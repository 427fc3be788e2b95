# -*- coding: utf-8 -*-
"""
The order in which the worklists and element sets are processed does not matter.

The names `set` inside the simulator's modules are bound to a set whose pop() and iteration order are chosen by the
explorer; every schedule within the bound is run on the real code.
"""
import builtins
import numpy as np
from mc.core import Family, Violation, explore
from mc import zoo

ASSUMPTIONS = [
    "the scheduled containers are the sets the simulator's own modules create; worklists kept in other containers run in their own order",
    "oracle: the same system solved with the interpreter's own order",
]

_CTL = [None]


def _name(x):
    if isinstance(x, tuple):
        return '(' + ','.join(_name(y) for y in x) + ')'
    n = getattr(x, 'name_system', None)
    if isinstance(n, str):
        return n
    return repr(x)


class SchedSet(set):
    __slots__ = ()
    __hash__ = None

    def pop(self):
        ctl = _CTL[0]
        if ctl is None or not len(self):
            return set.pop(self)
        x = ctl.pop(self)
        set.remove(self, x)
        return x

    def __iter__(self):
        ctl = _CTL[0]
        if ctl is None or len(self) < 2:
            return set.__iter__(self)
        return iter(ctl.order(self))

    def union(self, *others):
        return SchedSet(set.union(self, *others))

    def copy(self):
        return SchedSet(set.__iter__(self))


class Ctl(object):
    """canonical order by name; the explorer's choices rotate it"""

    def __init__(self, policy, chooser=None):
        self.policy = policy
        self.chooser = chooser
        self.n = 0

    def pop(self, s):
        if self.chooser is not None:
            # only the worklist of elements is scheduled; the closure over bonds runs in its native order
            for x in set.__iter__(s):
                break
            if not hasattr(x, 'name_system'):
                return x
            L = sorted(set.__iter__(s), key=_name)
            self.n += 1
            return L[self.chooser.choose(len(L))]
        L = sorted(set.__iter__(s), key=_name)
        self.n += 1
        if self.policy == 'last':
            return L[-1]
        if self.policy == 'mid':
            return L[len(L) // 2]
        if self.policy == 'alt':
            return L[0] if self.n % 2 else L[-1]
        if isinstance(self.policy, int):
            return L[(self.policy * self.n) % len(L)]
        return L[0]

    def order(self, s):
        if self.chooser is not None:
            return list(set.__iter__(s))
        L = sorted(set.__iter__(s), key=_name)
        if self.policy in ('last', 'alt'):
            L.reverse()
        elif self.policy == 'mid':
            h = len(L) // 2
            L = L[h:] + L[:h]
        elif isinstance(self.policy, int):
            h = (self.policy * 7) % len(L)
            L = L[h:] + L[:h]
            if self.policy % 2:
                L.reverse()
        return L


class Patch(object):
    MODS = ['phasor.system.ports_algorithm', 'phasor.system.matrix_algorithm', 'phasor.system.system', 'phasor.system.solver_algorithm']
    MORE = [
        'phasor.matrix.SRE_matrix_algorithms', 'phasor.matrix.DAG_algorithm', 'phasor.matrix.DAG_algorithm_impl',
        'phasor.matrix.matrix_generic', 'phasor.matrix.solvers_registry', 'phasor.matrix.scisparse_algorithm',
        'phasor.optics.ODE_solver', 'phasor.optics.hidden_variable_homodyne', 'phasor.optics.nonlinear_utilities',
    ]

    def __init__(self, mods=None):
        import importlib
        self.mods = []
        for m in mods or (self.MODS + self.MORE):
            try:
                self.mods.append(importlib.import_module(m))
            except ImportError:
                pass

    def __enter__(self):
        for mod in self.mods:
            mod.set = SchedSet
        return self

    def __exit__(self, *a):
        for mod in self.mods:
            if 'set' in mod.__dict__:
                del mod.set
        _CTL[0] = None


# -- schedules of the port worklist, re-run on one system -----------------------------------------
def port_result(sys):
    from phasor.system import ports_algorithm
    pa = ports_algorithm.PortUpdatesAlgorithm(system=sys)
    return dict((p, frozenset(k)) for p, k in pa.port_cplgs.items())


def explain(a, b):
    for p in set(a) | set(b):
        x, y = a.get(p, frozenset()), b.get(p, frozenset())
        if x != y:
            return "port {0}: only in one {1}, only in the other {2}".format(p, sorted(map(repr, x - y))[:3], sorted(map(repr, y - x))[:3])
    return ''


def solve_with(zname, ctl_f):
    """whole solve under a schedule"""
    _CTL[0] = None
    z = zoo.ALL[zname]()
    with Patch():
        b = zoo.Built(z)
        _CTL[0] = ctl_f()
        try:
            return b.all()
        finally:
            _CTL[0] = None


_built = {}


def built(zname):
    if zname not in _built:
        z = zoo.ALL[zname]()
        b = zoo.Built(z)
        b.sys.solution if False else None
        b.all()
        _built[zname] = b
    return _built[zname]


def run_ports(case, ctx):
    """all worklist schedules with up to `dev` deviations from the canonical one, a block of the first deviation"""
    b = built(case['zoo'])
    want = port_result(b.sys)
    n = [0]
    with Patch(['phasor.system.ports_algorithm']):
        def one(ch):
            _CTL[0] = Ctl(0, ch)
            try:
                got = port_result(b.sys)
            finally:
                ncall = _CTL[0].n
                _CTL[0] = None
            n[0] += 1
            ctx.step(ncall)
            if got != want:
                # is it observable?
                script = ch.script()
                why = explain(want, got)

                class Scripted(object):
                    def __init__(self):
                        self.i = 0

                    def choose(self, m):
                        c = script[self.i] if self.i < len(script) else 0
                        self.i += 1
                        return min(c, m - 1)
                from mc.core import Violation as V
                raise V("schedule {0} of the port worklist gives other frequencies and couplings: {1}".format(compact(script), why))

        class Block(object):
            pass
        # single deviations, partitioned over the cases by the position of the deviation
        k, m = case['block']
        base = Chooser0()
        one(base)
        trail = base.trail
        for i in range(k, len(trail), m):
            for c in range(1, trail[i][1]):
                if c % case.get('stride', 1) and c != trail[i][1] - 1:
                    continue
                one(Chooser0({i: c}))
                ctx.state(case['zoo'], i, c)
        if case.get('second'):
            for i in range(k, len(trail), m):
                for c in sorted(set([1, trail[i][1] - 1]) - set([0])):
                    if c >= trail[i][1]:
                        continue
                    ch = Chooser0({i: c})
                    one(ch)
                    t2 = ch.trail
                    for j in range(i + 1, len(t2)):
                        for c2 in sorted(set([1, t2[j][1] - 1]) - set([0])):
                            if c2 < t2[j][1]:
                                one(Chooser0({i: c, j: c2}))
                                ctx.state(case['zoo'], i, c, j, c2)
    ctx.trace(n[0])
    ctx.cls(case['zoo'])


def compact(script):
    return dict((i, c) for i, c in enumerate(script) if c)


class Chooser0(object):
    def __init__(self, dev=None):
        self.dev = dev or {}
        self.trail = []

    def choose(self, n):
        if n <= 1:
            return 0
        c = self.dev.get(len(self.trail), 0)
        c = min(c, n - 1)
        self.trail.append((c, n))
        return c

    def script(self):
        return [c for c, n in self.trail]


def cases_ports(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        m = 8 if z.slow or zn in ('pol', 'pdh') else 4
        for k in range(m):
            yield dict(zoo=zn, block=[k, m], stride=3 if tier == 'quick' else 1)
    if tier != 'quick':
        for zn in ('vir', 'mech', 'opamp', 'vco', 'loop', 'aom'):
            for k in range(16):
                yield dict(zoo=zn, block=[k, 16], second=1)


# -- exhaustive interleaving of small systems ------------------------------------------------------
def run_policy(case, ctx):
    z, want = zoo.reference(case['zoo'])
    got = solve_with(case['zoo'], lambda: Ctl(case['policy']))
    zoo.same(ctx, got, want, lambda: "system {0} solved in the order {1!r}".format(case['zoo'], case['policy']))
    ctx.state(case)
    ctx.step(len(want))
    ctx.trace()
    ctx.cls(case['zoo'])


def cases_policy(tier):
    pols = ['first', 'last', 'mid', 'alt'] + list(range(1, 5 if tier == 'quick' else 24))
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        for p in pols:
            yield dict(zoo=zn, policy=p)


def run_full(case, ctx):
    """every schedule of the worklist for small systems"""
    zs = small()[case['small']]
    b = zoo.Built(zs)
    b.all()
    want = port_result(b.sys)
    # every interleaving which starts with the given choices
    with Patch(['phasor.system.ports_algorithm']):
        class Stop(Exception):
            pass
        pre = case['prefix']

        def one(ch):
            def choose(n):
                i = state[0]
                state[0] += 1
                if n <= 1:
                    state[0] -= 1
                    return 0
                if i < len(pre):
                    if pre[i] >= n:
                        raise Stop()
                    return pre[i]
                return ch.choose(n)
            state = [0]

            class C(object):
                pass
            c = C()
            c.choose = choose
            _CTL[0] = Ctl(0, c)
            try:
                got = port_result(b.sys)
            except Stop:
                return
            finally:
                nn = _CTL[0].n if _CTL[0] else 0
                _CTL[0] = None
            ctx.step(nn)
            ctx.state(case['small'], pre, ch.script())
            ctx.trace()
            if got != want:
                raise Violation("schedule {0}+{1} of the port worklist of {2}: {3}".format(pre, ch.script(), case['small'], explain(want, got)))
        n, complete = explore(one, max_execs=case['max'], preemptions=case.get('dev'))
    ctx.cls('{0}: {1}'.format(case['small'], 'complete' if complete else 'truncated'))


def small():
    o = zoo.optics
    d = {}
    z = zoo.Zoo()
    z.el('laser', lambda s, P: o().Laser(F=s.F_carrier_1064, power_W=1.))
    z.el('pm', lambda s, P: o().AM())
    z.el('pd', lambda s, P: o().PD())
    z.bond('laser.po_Fr', 'pm.po_Fr').bond('pm.po_Bk', 'pd.po_Fr')
    z.ac('ac', 'pm.Drv.i', 'pd.Wpd.o').dc('dc', 'pd.Wpd.o')
    d['laser-am-pd'] = z
    z = zoo.Zoo()
    z.el('laser', lambda s, P: o().Laser(F=s.F_carrier_1064, power_W=1.))
    z.el('m1', lambda s, P: o().Mirror(T_hr=.1))
    z.el('m2', lambda s, P: o().Mirror(T_hr=.2))
    z.el('pd', lambda s, P: o().PD())
    z.bond('laser.po_Fr', 'm1.po_Bk').bond('m1.po_Fr', 'm2.po_Fr').bond('m2.po_Bk', 'pd.po_Fr')
    z.dc('dc', 'pd.Wpd.o')
    d['cavity'] = z

    def S():
        import phasor.signals as S
        return S
    z = zoo.Zoo()
    z.el('sum', lambda s, P: S().SummingAmplifier(port_gains=dict(a=1., b=-1.)))
    z.el('g', lambda s, P: S().SRationalFilter(poles_r=(-3.,), gain=2.))
    z.el('dist', lambda s, P: S().DistributionAmplifier(port_gains=dict(x=1., y=2.)))
    z.bond('sum.ps_Out', 'g.ps_In').bond('g.ps_Out', 'dist.ps_In').bond('dist.x', 'sum.b')
    z.ac('ac', 'sum.a.i', 'dist.y.o')
    d['loop'] = z

    def E():
        import phasor.electronics as E
        return E
    z = zoo.Zoo()
    z.el('V', lambda s, P: E().VoltageSource(V_DC=1.))
    z.el('R', lambda s, P: E().SeriesResistor(resistance_Ohms=3.))
    z.el('T', lambda s, P: E().TerminatorResistor(resistance_Ohms=5.))
    z.bond('V.pe_A', 'R.pe_A').bond('R.pe_B', 'T.pe_A')
    z.read('v', lambda s, P, p: E().VoltageReadout(terminal=p('T.pe_A')), [('DC', lambda r: r.DC_readout)])
    z.ac('ac', 'V.V.i', 'v.V.o')
    z.late = True
    d['divider'] = z
    return d


def cases_full(tier):
    for name in sorted(small()):
        for a in range(6):
            for b in range(6):
                yield dict(small=name, prefix=[a, b], max=150 if tier == 'quick' else 6000)


FAMILIES = [
    Family('interleavings', cases_full, run_full, "port worklist of four small systems: schedules depth first below every pair of first choices, up to 150 (6000) schedules below each"),
    Family('deviations', cases_ports, run_ports, "port worklist of all the zoo systems: every single deviation from the canonical schedule (every third alternative in the quick tier; pairs of extreme deviations for six systems in the thorough tier)", cpu_s=600, chunk=1),
    Family('policies', cases_policy, run_policy, "whole solve of all the zoo systems with the sets of the system, matrix solver and nonlinear optics modules in 8 (27) different orders", chunk=2),
]
