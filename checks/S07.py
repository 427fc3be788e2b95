# -*- coding: utf-8 -*-
"""
Ports left open are terminated as if the user had done so.
"""
import copy
import itertools
import numpy as np
from mc.core import Family
from mc import zoo

ASSUMPTIONS = [
    "oracle: the same system with nothing terminated by hand; the physical content of termination (vacuum, open circuit) is checked by O03 and E01",
]

_open = {}
# circuits with further ports left open: zoo, element replaced, number of extra open ports
VARIANTS = dict(vir_open=('vir', 'n', 2), mech_open=('mech', 'n', 1), mech_open2=('mech', 'n2', 2))
_var = {}


def reference(zn):
    """the variants must give what the circuit without the additional open ports gives"""
    if zn not in VARIANTS:
        return zoo.reference(zn)
    if zn not in _var:
        base, el, extra = VARIANTS[zn]
        z0, want = zoo.reference(base)
        z = copy.copy(z0)
        z.els = list(z0.els)
        i = [e[0] for e in z.els].index(el)

        def f(s, P):
            import phasor.electronics as E
            import phasor.mechanical as M
            return (E if base == 'vir' else M).Connection(N_ports=3 + extra)
        z.els[i] = (el, f)
        _var[zn] = (z, want)
    return _var[zn]


def walk(el, path=''):
    for name, c in sorted(getattr(el, '_registry_children', {}).items(), key=lambda nc: str(nc[0])):
        if not hasattr(c, '_registry_children'):
            continue
        p = '{0}.{1}'.format(path, name) if path else str(name)
        yield p, c
        for x in walk(c, p):
            yield x


def open_ports(zn):
    """the ports which are terminated automatically, with the class used"""
    if zn not in _open:
        z, want = reference(zn)
        b = zoo.Built(z)
        b.all()
        ret = []
        for p, c in walk(b.sys):
            if p.endswith('.terminator') and 'p_virt' not in p:
                ret.append((p[:-len('.terminator')], type(c).__name__, type(c)))
        _open[zn] = ret
    return _open[zn]


def run(case, ctx):
    z, want = reference(case['zoo'])
    ports = open_ports(case['zoo'])
    b = zoo.Built(z)
    for n, i in enumerate(case['ports']):
        path, cname, cls = ports[i]
        port = zoo.port_get(b.sys, path)
        if case['with'] == 'pd' and cname == 'VacuumTerminator':
            import phasor.optics as o
            t = o.PD()
        else:
            t = cls()
        b.sys.insert(t, 'explicit{0}'.format(n))
        t = getattr(b.sys, 'explicit{0}'.format(n))
        pt = getattr(t, 'po_Fr' if hasattr(type(t), 'po_Fr') else 'pm_A' if hasattr(type(t), 'pm_A') else 'pe_A')
        if case['flip']:
            b.sys.bond(pt, port)
        else:
            b.sys.bond(port, pt)
        ctx.step()
    zoo.same(ctx, b.all(), want, lambda: "system {0} with {1} terminated by hand ({2})".format(case['zoo'], [ports[i][0] for i in case['ports']], case['with']))
    ctx.state(case)
    ctx.trace()
    for i in case['ports']:
        ctx.cls(ports[i][1])


def cases(tier):
    for zn in sorted(zoo.ALL) + sorted(VARIANTS):
        n = len(open_ports(zn))
        if not n:
            continue
        opt = any(p[1] == 'VacuumTerminator' for p in open_ports(zn))
        subs = []
        for k in range(1, n + 1):
            if n > 5 and k not in ((1, n) if tier == 'quick' else (1, 2, n - 1, n)):
                continue
            subs.extend(itertools.combinations(range(n), k))
        subs.insert(0, ())
        for i, s in enumerate(subs):
            for w in (('own', 'pd') if opt else ('own',)):
                for flip in ((i % 2,) if tier == 'quick' else (0, 1)):
                    yield dict(zoo=zn, ports=list(s), flip=flip, **{'with': w})


FAMILIES = [
    Family('terminate', cases, run, "17 systems, all subsets (singles and all, for more than 5) of their open ports terminated explicitly, optical ports also with photodiodes"),
]
