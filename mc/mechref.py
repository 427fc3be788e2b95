# -*- coding: utf-8 -*-
"""
Reference for one dimensional mechanical networks: every port has a displacement and a force *into* the element;
every node imposes equal displacements and zero total force; every element imposes its own law (Newton / Hooke).

A network is a list of elements [type, value, [node, node, ...]] (one node per port, node None = left unbonded).
"""
import numpy as np

PORTS = dict(
    K=['pm_A'], D=['pm_A'], M=['pm_A'], TO=['pm_A'], TS=['pm_A'],
    FS=['pm_A'], DS=['pm_A'],
    SK=['pm_A', 'pm_B'], SD=['pm_A', 'pm_B'], SM=['pm_A', 'pm_B'], CBL=['pm_A', 'pm_B'],
    DB=['pm_A', 'pm_B'], FJ=['pm_A', 'pm_B'], FB=['pm_A', 'pm_B'],
    M1=['pm_A', 'pm_B', 'L'],
    STR=['pm_A', 'pm_B'],
    X=['Ax', 'Ay', 'Az', 'Bx', 'By', 'Bz', 'Lx', 'Ly', 'Lz'],
)
# signal port of the source elements
DRIVES = dict(FS='F', DS='d', DB='d', FJ='F', FB='F')


def construct(typ, val):
    import phasor.mechanical as M
    if typ == 'K':
        return M.TerminatorSpring(elasticity_N_m=val[0], loss_angle_by_freq=val[1])
    if typ == 'D':
        return M.TerminatorDamper(resistance_Ns_m=val)
    if typ == 'M':
        return M.Mass(mass_kg=val)
    if typ == 'TO':
        return M.TerminatorOpen()
    if typ == 'TS':
        return M.TerminatorShorted()
    if typ == 'FS':
        return M.ForceSource(F_DC=val)
    if typ == 'DS':
        return M.DisplacementSource(d_DC=val)
    if typ == 'SK':
        return M.SeriesSpring(elasticity_N_m=val[0], loss_angle_by_freq=val[1])
    if typ == 'SD':
        return M.SeriesDamper(resistance_Ns_m=val)
    if typ == 'SM':
        return M.SeriesMass(mass_kg=val)
    if typ == 'CBL':
        return M.Cable(delay_s=val)
    if typ == 'DB':
        return M.DisplacementSourceBalanced(d_DC=val)
    if typ == 'FJ':
        return M.DisplacementSourceBalanced(F_DC=val)
    if typ == 'FB':
        return M.ForceSourceBalanced(F_DC=val)
    if typ == 'M1':
        from phasor.mechanical import xyz
        return xyz.Moment1D(displacement=val)
    if typ == 'STR':
        from phasor.mechanical import string
        return string.String(length_m=val[0], tension_N=val[1], mass_density_kg_m=val[2])
    if typ == 'X':
        from phasor.mechanical import xyz
        return xyz.XYZMomentDriver(displacementXYZ=val)
    raise KeyError(typ)


def cross_matrix(r):
    """C with C @ v = r x v"""
    return np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]], dtype=float)


def stiffness(typ, val, F):
    w = 2 * np.pi * F
    if typ in ('K', 'SK'):
        # hysteretic loss: the response to a real drive is real, so the loss changes sign with the frequency
        phi = 0 if val[1] is None else val[1]
        return val[0] * (1 + 1j * phi * np.sign(F))
    if typ in ('D', 'SD'):
        return 1j * w * val
    if typ in ('M', 'SM'):
        return -w**2 * val
    raise KeyError(typ)


def laws(typ, val, F):
    """
    rows: list of (coefficients of displacements, coefficients of forces); each row sums to the drive column.
    Returns (rows, drive) with drive {row: coefficient of the drive value}
    """
    if typ in ('K', 'D', 'M'):
        return [([stiffness(typ, val, F)], [-1])], {}
    if typ == 'TO':
        return [([0], [1])], {}
    if typ == 'TS':
        return [([1], [0])], {}
    if typ == 'FS':
        return [([0], [-1])], {0: 1}
    if typ == 'DS':
        return [([1], [0])], {0: 1}
    if typ in ('SK', 'SD', 'SM'):
        y = stiffness(typ, val, F)
        return [([0, 0], [1, 1]), ([y, -y], [-1, 0])], {}
    if typ == 'CBL':
        ph = np.exp(-2j * np.pi * F * val)
        return [([1, -ph], [-1, -ph]), ([-ph, 1], [-ph, -1])], {}
    if typ == 'STR':
        L, T, rho = val
        c = (T / rho)**.5
        if F == 0:
            y = T / L
            return [([0, 0], [1, 1]), ([y, -y], [-1, 0])], {}
        k = 2 * np.pi * F / c
        # F_A = T k (d_A cot kL - d_B / sin kL): the stretched string
        a, b = T * k / np.tan(k * L), T * k / np.sin(k * L)
        return [([a, -b], [-1, 0]), ([-b, a], [0, -1])], {}
    if typ == 'STRW':
        # delay line of constant characteristic stiffness (see the known findings)
        L, T, rho = val
        ph = np.exp(-2j * np.pi * F * L / (T / rho)**.5)
        y = (T * rho)**.5 if F else 1.
        return [([y, -ph * y], [-1, -ph]), ([-ph * y, y], [-ph, -1])], {}
    if typ == 'DB':
        return [([1, -1], [0, 0]), ([0, 0], [1, 1])], {0: 1}
    if typ == 'FJ':
        return [([1, -1], [0, 0]), ([0, 0], [-1, -1])], {1: 1}
    if typ == 'FB':
        return [([0, 0], [1, 1]), ([0, 0], [-1, 0])], {1: 1}
    if typ == 'M1':
        # rigid lever: d_A - d_B = (lever) * angle, massless (virtual work vanishes)
        return [([1, -1, -val], [0, 0, 0]), ([0, 0, 0], [1, 1, 0]), ([0, 0, 0], [val, 0, 1])], {}
    if typ == 'X':
        # A is rigidly attached to B at the offset r: the relative displacement is the rotation of r, up to handedness
        # (fixed by the caller through the sign of val), torque from the forces by virtual work
        r = np.asarray(val, dtype=float)
        C = cross_matrix(r)
        rows = []
        P = np.outer(r, r) / r.dot(r)
        for i in range(3):
            # d_A - d_B = S theta  (S = C or C^T)
            rows.append((list(np.eye(3)[i]) + list(-np.eye(3)[i]) + list(-C[i]), [0] * 9))
        for i in range(3):
            rows.append(([0] * 9, list(np.eye(3)[i]) + list(np.eye(3)[i]) + [0] * 3))
        for i in range(3):
            # virtual work: tau = -S^T F_A
            rows.append(([0] * 9, list(C.T[i]) + [0] * 3 + list(np.eye(3)[i])))
        return rows, {}
    raise KeyError(typ)


class Tableau(object):
    def __init__(self, net, F, limit=1e8):
        self.net = net
        self.pidx = {}
        for e, (typ, val, nodes) in enumerate(net):
            for p in range(len(nodes)):
                self.pidx[e, p] = len(self.pidx)
        N = len(self.pidx)
        rows = []
        self.src_rows = {}
        for e, (typ, val, nodes) in enumerate(net):
            lw, drv = laws(typ, val, F)
            assert len(lw) == len(nodes), typ
            for r, (cd, cf) in enumerate(lw):
                row = np.zeros(2 * N, dtype=complex)
                for p in range(len(nodes)):
                    row[self.pidx[e, p]] += cd[p]
                    row[N + self.pidx[e, p]] += cf[p]
                if r in drv:
                    self.src_rows.setdefault(e, []).append((len(rows), drv[r]))
                rows.append(row)
        groups = {}
        for e, (typ, val, nodes) in enumerate(net):
            for p, n in enumerate(nodes):
                groups.setdefault(('open', e, p) if n is None else ('n', n), []).append(self.pidx[e, p])
        for k, members in groups.items():
            for m in members[1:]:
                row = np.zeros(2 * N, dtype=complex)
                row[members[0]] = 1
                row[m] = -1
                rows.append(row)
            row = np.zeros(2 * N, dtype=complex)
            for m in members:
                row[N + m] = 1
            rows.append(row)
        A = np.array(rows)
        self.scale = abs(A).max(axis=1)
        self.ok = bool((self.scale > 0).all())
        if self.ok:
            self.A = A / self.scale[:, None]
            self.ok = np.linalg.cond(self.A) < limit
        self.N = N

    def solve(self, drives):
        """drives: {element index: value}; returns displacements, forces by port index"""
        b = np.zeros(2 * self.N, dtype=complex)
        for e, v in drives.items():
            for r, c in self.src_rows[e]:
                b[r] += c * v / self.scale[r]
        x = np.linalg.solve(self.A, b)
        return x[:self.N], x[self.N:]


def bond_net(sys, objs, net, style):
    import phasor.mechanical as M
    groups = {}
    for e, (typ, val, nodes) in enumerate(net):
        for p, n in enumerate(nodes):
            if n is not None:
                groups.setdefault(n, []).append(getattr(objs[e], PORTS[typ][p]))
    for n, members in sorted(groups.items()):
        if len(members) == 1:
            continue
        if style == 'conn' and len(members) > 2:
            sys.insert(M.Connection(N_ports=len(members)), 'conn{0}'.format(n))
            conn = getattr(sys, 'conn{0}'.format(n))
            for k, m in enumerate(members):
                if k % 2:
                    sys.bond(m, getattr(conn, 'pm_{0}'.format(k)))
                else:
                    sys.bond(getattr(conn, 'pm_{0}'.format(k)), m)
        elif style == 'connlist' and len(members) > 2:
            sys.insert(M.Connection(connect=members), 'conn{0}'.format(n))
        elif style == 'star':
            for m in members[1:]:
                sys.bond(members[0], m)
        elif style == 'starlast':
            for m in members[:-1]:
                sys.bond(m, members[-1])
        else:  # chain of bonds
            for a, b in zip(members[:-1], members[1:]):
                sys.bond(a, b)
