# -*- coding: utf-8 -*-
"""
Reference for optical networks whose modulators are driven by a radio frequency: the fields are Fourier series in the
drive frequency (orders -K..K), every element scatters every order, the modulators couple neighbouring orders.
Detected powers are Fourier coefficients of the product of the field and its conjugate.
"""
import numpy as np
from . import optref
from .optref import H, C, LAM

GAIN = dict(AM=.5, PM=.5j)


class Ref(optref.Ref):
    """
    rf = dict(f=Hz, K=orders, X={(element, 'AM'|'PM'): complex amplitude})
    """

    def __init__(self, net, rf):
        self.f, self.K, self.X = rf['f'], rf['K'], rf['X']
        self.N = 2 * self.K + 1
        super(Ref, self).__init__(net)

    def at(self, n):
        """index of an order"""
        return n + self.K

    def A(self, F):
        if F not in self._A:
            n = 2 * len(self.idx)
            M = np.zeros((self.N, n, self.N, n), dtype=complex)
            for k in range(-self.K, self.K + 1):
                for e, (typ, par) in enumerate(self.net['elements']):
                    for (pi, po), J in optref.smat(typ, par, k * self.f + F).items():
                        src = self.partner.get((e, pi))
                        if src is None:
                            continue
                        i, o = self.idx[src], self.idx[e, po]
                        M[self.at(k), 2 * o:2 * o + 2, self.at(k), 2 * i:2 * i + 2] += J
                        for kind in ('AM', 'PM'):
                            X = self.X.get((e, kind))
                            if X is None:
                                continue
                            for d, x in ((1, X), (-1, np.conj(X))):
                                if abs(k + d) <= self.K:
                                    M[self.at(k + d), 2 * o:2 * o + 2, self.at(k), 2 * i:2 * i + 2] += GAIN[kind] * x * np.eye(2)
            self._A[F] = np.eye(self.N * n) - M.reshape(self.N * n, self.N * n)
        return self._A[F]

    def solve(self, F, src):
        n = 2 * len(self.idx)
        if src.ndim == 1:
            full = np.zeros((self.N, n), dtype=complex)
            full[self.K] = src
            src = full
        return np.linalg.solve(self.A(F), src.reshape(-1)).reshape(self.N, n)

    def inc(self, a, e, p):
        """[order, polarization] entering a port"""
        q = self.partner.get((e, p))
        if q is None:
            return np.zeros((self.N, 2), dtype=complex)
        i = self.idx[q]
        return a[:, 2 * i:2 * i + 2]

    def coef(self, x, y, k):
        """sum over orders of x[n+k] conj(y[n])"""
        tot = 0.
        for n in range(self.N):
            if 0 <= n + k < self.N:
                tot = tot + np.sum(x[n + k] * np.conj(y[n]))
        return tot

    def power_k(self, e, p, k):
        a = self.inc(self.a0, e, p)
        return self.coef(a, a, k)

    def drive_src(self, e, kind):
        typ, par = self.net['elements'][e]
        src = np.zeros((self.N, 2 * len(self.idx)), dtype=complex)
        if kind == 'Z':
            S = optref.mirror_smat(dict(par, BS=0) if typ == 'M' else par, typ == 'M4')
            cosA = 1. if typ == 'M' else 2**-.5
            for (pi, po), v in S.items():
                if pi[3:5] != po[3:5]:
                    continue
                sign = 1 if pi.startswith('po_Fr') else -1
                o = self.idx[e, po]
                src[:, 2 * o:2 * o + 2] += v * self.inc(self.a0, e, pi) * (sign * 1j * (-4 * np.pi / LAM) * cosA)
        else:
            for pi, po in (('po_Fr', 'po_Bk'), ('po_Bk', 'po_Fr')):
                o = self.idx[e, po]
                src[:, 2 * o:2 * o + 2] += GAIN[kind] * self.inc(self.a0, e, pi)
        return src

    def response_k(self, sb, e, p, k):
        """coefficient at k f + F of the detected power"""
        bp, bm = sb
        a = self.inc(self.a0, e, p)
        return self.coef(self.inc(bp, e, p), a, k) + self.coef(a, self.inc(bm, e, p), k)

    def noise_rows(self, outs, F):
        """
        outs: [[(coefficient, e, p, k), ...], ...]: every output is a combination of detected powers at k f + F
        returns the one sided cross spectral matrix
        """
        n = 2 * len(self.idx)
        vac = [(j, pol, amp) for j, pol, amp in self.vacua()]
        rows = []
        for parts in outs:
            row = []
            for sgn in (1, -1):
                w = np.zeros((self.N, n), dtype=complex)
                for c, e, p, k in parts:
                    a = self.inc(self.a0, e, p)
                    i = self.idx[self.partner[e, p]]
                    for m in range(self.N):
                        if 0 <= m + k < self.N:
                            if sgn == 1:
                                # b+[m+k] conj(a[m])
                                w[m + k, 2 * i:2 * i + 2] += c * np.conj(a[m])
                            else:
                                # a[m+k] conj(b-[m])
                                w[m, 2 * i:2 * i + 2] += c * a[m + k]
                M = self.A(sgn * F)
                if sgn == 1:
                    v = np.linalg.solve(M.T, w.reshape(-1)).reshape(self.N, n)
                else:
                    v = np.linalg.solve(np.conj(M.T), w.reshape(-1)).reshape(self.N, n)
                row.append(np.array([v[:, 2 * j + pol] * amp for j, pol, amp in vac]).reshape(-1))
            rows.append(np.concatenate(row))
        R = np.array(rows)
        return H * C / LAM * np.dot(R, np.conj(R.T))
