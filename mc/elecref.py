# -*- coding: utf-8 -*-
"""
Reference for lumped electrical networks: the sparse tableau (every port has a voltage and a current *into* the
element; every node imposes equal voltages and zero total current; every element imposes its own law).

A network is a list of elements [type, value, [node, node, ...]] (one node per port, node None = left unbonded).
"""
import numpy as np

PORTS = dict(
    TR=['pe_A'], TC=['pe_A'], TL=['pe_A'], TO=['pe_A'], TS=['pe_A'], TM=['pe_A'],
    V=['pe_A'], I=['pe_A'],
    SR=['pe_A', 'pe_B'], SC=['pe_A', 'pe_B'], SL=['pe_A', 'pe_B'], CBL=['pe_A', 'pe_B'], VB=['pe_A', 'pe_B'], VBI=['pe_A', 'pe_B'], IB=['pe_A', 'pe_B'],
    OA=['in_p', 'in_n', 'out'], VA=['in_n', 'out'],
)


# gain, corner frequency and frequency of a full turn of the delay (90 degrees or, for 360/90*f, 360 degrees of phase at f),
# one sided input voltage and current noise densities and the frequencies below which they rise
VENDOR = {
    'Ope_27': (1e6, 8., 40e6, 3e-9, 2.7, .4e-12, 140.),
    'Ope_827': (1e6, 20., 400e6, 3.8e-9, (20 / 3.8)**2 - 1, 2.2e-15, 1e3),
    'Ope_209': (10**6.5, 10., 400e6, 2.2e-9, 1.25, .5e-12, 8.),
    'TLE2027': (1e6, 8., 40e6, 2.5e-9, 7.424, .8e-12, 1552.5),
    'AD8675': (1e6, 10., 120e6, 2.8e-9, (6.5 / 2.8)**2 - 1, .3e-12, 10.),
    'LMH6609': (10**3.5, 1e5, 1200e6, 3.2e-9, 1e3, 1.5e-12, 1e4),
    'AD743': (10**4.5, 1e5, 80e6, 2.9e-9, 0., 6.9e-15, 0.),
}


def vendor_noise(name, F):
    """one sided spectral densities of the noises of the inputs of a vendor's amplifier"""
    x = VENDOR[name]
    return [d**2 * (1 + (fc / F)**2)**.5 for d, fc in (x[3:5], x[5:7])]


def opamp_gain(F, val=1e3):
    if val in VENDOR:
        A, fc, turn = VENDOR[val][:3]
        return A / (1 + 1j * F / fc) * np.exp(-2j * np.pi * F / turn)
    # integrator-like roll off
    return val / (1 + 1j * np.asarray(F) / 50.)


def construct(typ, val):
    import phasor.electronics as E
    if typ == 'TR':
        return E.TerminatorResistor(resistance_Ohms=val)
    if typ == 'TC':
        return E.TerminatorCapacitor(capacitance_Farads=val)
    if typ == 'TL':
        return E.TerminatorInductor(inductance_Henries=val[0], resistance_Ohms=val[1])
    if typ == 'TO':
        return E.TerminatorOpen()
    if typ == 'TS':
        return E.TerminatorShorted()
    if typ == 'TM':
        return E.TerminatorMatched()
    if typ == 'V':
        return E.VoltageSource(V_DC=val)
    if typ == 'I':
        return E.CurrentSource(I_DC=val)
    if typ == 'SR':
        return E.SeriesResistor(resistance_Ohms=val)
    if typ == 'SC':
        return E.SeriesCapacitor(capacitance_Farads=val)
    if typ == 'SL':
        return E.SeriesInductor(inductance_Henries=val[0], resistance_Ohms=val[1])
    if typ == 'CBL':
        return E.Cable(length_ns=val)
    if typ == 'VB':
        return E.VoltageSourceBalanced(V_DC=val)
    if typ == 'VBI':
        return E.VoltageSourceBalanced(I_DC=val)
    if typ == 'IB':
        return E.CurrentSourceBalanced(I_DC=val)
    if typ == 'OA':
        return E.OpAmp(gain_by_freq=lambda F: opamp_gain(F, val))
    if typ == 'VA':
        if isinstance(val, (list, tuple)):
            return E.VAmp(gain_by_freq=lambda F: opamp_gain(F, val[0]), Y_input=val[1], Z_output=val[2])
        return E.VAmp(gain_by_freq=lambda F: opamp_gain(F, val))
    raise KeyError(typ)


def laws(typ, val, F):
    """
    rows: list of (coefficients of V ports, coefficients of I ports); each row sums to the drive column.
    Returns (rows, drive) with drive the index of the row whose right hand side is the source value (or None)
    """
    s = 2j * np.pi * F
    if typ == 'TR':
        return [([1], [-val])], None
    if typ == 'TC':
        return [([s * val], [-1])], None
    if typ == 'TL':
        return [([1], [-(val[1] + s * val[0])])], None
    if typ == 'TO':
        return [([0], [1])], None
    if typ == 'TS':
        return [([1], [0])], None
    if typ == 'TM':
        return [([1], [-50.])], None
    if typ == 'V':
        return [([1], [0])], 0
    if typ == 'I':
        return [([0], [-1])], 0
    if typ == 'SR':
        return [([0, 0], [1, 1]), ([1, -1], [-val, 0])], None
    if typ == 'SC':
        return [([0, 0], [1, 1]), ([s * val, -s * val], [-1, 0])], None
    if typ == 'SL':
        return [([0, 0], [1, 1]), ([1, -1], [-(val[1] + s * val[0]), 0])], None
    if typ == 'CBL':
        # 50 Ohm delay line: the wave leaving one end is the delayed wave that entered the other
        ph = np.exp(-s * val * 1e-9)
        return [([1, -ph], [-50., -50. * ph]), ([-ph, 1], [-50. * ph, -50.])], None
    if typ == 'VB':
        return [([1, -1], [0, 0]), ([0, 0], [1, 1])], 0
    if typ == 'VBI':
        # a wire into which the source pushes its current
        return [([0, 0], [-1, -1]), ([1, -1], [0, 0])], 0
    if typ == 'IB':
        return [([0, 0], [-1, 0]), ([0, 0], [1, 1])], 0
    if typ == 'OA':
        g = opamp_gain(F, val)
        return [([0, 0, 0], [1, 0, 0]), ([0, 0, 0], [0, 1, 0]), ([-g, g, 1], [0, 0, 0])], None
    if typ == 'VA':
        g, Y, Z = val if isinstance(val, (list, tuple)) else (val, 0., 0.)
        g = opamp_gain(F, g)
        return [([-Y, 0], [1, 0]), ([g, 1], [0, -Z])], None
    raise KeyError(typ)


class Tableau(object):
    def __init__(self, net, F):
        self.net = net
        self.pidx = {}
        for e, (typ, val, nodes) in enumerate(net):
            for p in range(len(nodes)):
                self.pidx[e, p] = len(self.pidx)
        N = len(self.pidx)
        rows = []
        self.src_rows = {}
        for e, (typ, val, nodes) in enumerate(net):
            lw, drv = laws(typ, val, F)
            assert len(lw) == len(nodes)
            for r, (cv, ci) in enumerate(lw):
                row = np.zeros(2 * N, dtype=complex)
                for p in range(len(nodes)):
                    row[self.pidx[e, p]] += cv[p]
                    row[N + self.pidx[e, p]] += ci[p]
                if drv == r:
                    self.src_rows[e] = len(rows)
                rows.append(row)
        groups = {}
        for e, (typ, val, nodes) in enumerate(net):
            for p, n in enumerate(nodes):
                groups.setdefault(('open', e, p) if n is None else ('n', n), []).append(self.pidx[e, p])
        self.groups = groups
        for k, members in groups.items():
            for m in members[1:]:
                row = np.zeros(2 * N, dtype=complex)
                row[members[0]] = 1
                row[m] = -1
                rows.append(row)
            row = np.zeros(2 * N, dtype=complex)
            for m in members:
                row[N + m] = 1
            rows.append(row)
        A = np.array(rows)
        # equilibrate, currents in units of 1/50
        A[:, N:] /= 50.
        self.scale = abs(A).max(axis=1)
        self.A = A / self.scale[:, None]
        self.N = N
        self.cond = np.linalg.cond(self.A)
        self.ok = self.cond < 1e7

    def solve(self, drives):
        """drives: {element index: value}; returns V, I arrays by port index"""
        b = np.zeros(2 * self.N, dtype=complex)
        for e, v in drives.items():
            b[self.src_rows[e]] += v / self.scale[self.src_rows[e]]
        x = np.linalg.solve(self.A, b)
        return x[:self.N], x[self.N:] / 50.


def bond_net(sys, objs, net, style):
    import phasor.electronics as E
    groups = {}
    for e, (typ, val, nodes) in enumerate(net):
        for p, n in enumerate(nodes):
            if n is not None:
                groups.setdefault(n, []).append(getattr(objs[e], PORTS[typ][p]))
    for n, members in sorted(groups.items()):
        if len(members) == 1:
            continue
        if style == 'conn' and len(members) > 2:
            sys.insert(E.Connection(N_ports=len(members)), 'conn{0}'.format(n))
            conn = getattr(sys, 'conn{0}'.format(n))
            for k, m in enumerate(members):
                if k % 2:
                    sys.bond(m, getattr(conn, 'pe_{0}'.format(k)))
                else:
                    sys.bond(getattr(conn, 'pe_{0}'.format(k)), m)
        elif style == 'connlist' and len(members) > 2:
            sys.insert(E.Connection(connect=members), 'conn{0}'.format(n))
        elif style == 'connmix' and len(members) > 2:
            sys.insert(E.Connection(N_ports=1, connect=members[1:]), 'conn{0}'.format(n))
            sys.bond(getattr(sys, 'conn{0}'.format(n)).pe_0, members[0])
        elif style == 'star':
            for m in members[1:]:
                sys.bond(members[0], m)
        elif style == 'starlast':
            for m in members[:-1]:
                sys.bond(m, members[-1])
        else:  # chain of bonds
            for a, b in zip(members[:-1], members[1:]):
                sys.bond(a, b)
