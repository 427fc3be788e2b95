# -*- coding: utf-8 -*-
"""
Finite spaces of optical networks (see mc.optref for the format).
"""
import itertools

LAS = ['LAS', dict(P=2.)]
LASP = ['LAS', dict(P=.5, pol='P', phase_deg=40)]
TWO = {
    'M': ['M', dict(T=.3)],
    'ML': ['M', dict(T=.5, L=.1, phase_deg=20)],
    'MT': ['M', dict(T=.6, Lt=.1, flip=True)],
    'SP': ['SP', dict(L=2.5e5, d=1.3e-7)],
    'ROT': ['ROT', dict(deg=30)],
    'R90': ['ROT', dict(deg=90)],
    'FAR': ['FAR', dict(deg=45)],
    'F90': ['FAR', dict(deg=-90)],
    'WP': ['WP', dict(S=[.6, .8], P=[0, -1])],
    'HWP': ['HWP', dict(deg=20)],
    'QWP': ['QWP', dict(deg=45)],
    'PMIR': ['PMIR', dict(TS=.2, TP=.7, L=.05)],
    'AM': ['AM', {}],
    'PM': ['PM', {}],
    'AMPM': ['AMPM', {}],
}
SYMM = ('SP', 'WP', 'AM', 'PM', 'AMPM')


def oriented(names):
    for n in names:
        yield n, 0
        if n not in SYMM:
            yield n, 1


class Net(object):
    def __init__(self):
        self.elements = []
        self.links = []

    def add(self, el):
        self.elements.append(el)
        return len(self.elements) - 1

    def link(self, a, p, b, q):
        self.links.append([[a, p], [b, q]])

    def chain(self, a, p, seq, end=None):
        """hangs the oriented two port elements from port p of a"""
        for n, rev in seq:
            e = self.add(TWO[n])
            fr, bk = ('po_Bk', 'po_Fr') if rev else ('po_Fr', 'po_Bk')
            self.link(a, p, e, fr)
            a, p = e, bk
        if end is not None:
            self.link(a, p, *end)
        return a, p

    def json(self):
        return dict(elements=self.elements, links=self.links)


def chains(tier, names=None, n=None):
    names = names or list(TWO)
    n = n or (2 if tier == 'quick' else 3)
    for k in range(1, n + 1):
        for seq in itertools.product(list(oriented(names)), repeat=k):
            N = Net()
            l = N.add(LASP if sum(r for _, r in seq) % 2 else LAS)
            N.chain(l, 'po_Fr', seq)
            yield N.json()


def cavities(tier, names=None):
    """two mirrors with every pair of elements in between, driven from one or from both ends"""
    names = names or ['SP', 'ROT', 'FAR', 'WP', 'QWP', 'PMIR', 'M', 'AM', 'PM']
    ends = [(('M', 1), ('MT', 0)), (('ML', 0), ('M', 1))]
    ors = list(oriented(names))
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(ors, repeat=k):
            if k == 3 and len(set(seq)) < 3:
                continue
            if not any(n == 'SP' for n, r in seq):
                # a cavity without length has the same response at every frequency: keep one of them
                if k > 1:
                    continue
            for i, (a, b) in enumerate(ends):
                if k > 1 and i == 1 and tier == 'quick' and seq[0][0] != 'SP':
                    continue
                N = Net()
                l = N.add(LAS)
                e, p = N.chain(l, 'po_Fr', (a,) + seq + (b,))
                if i:
                    l2 = N.add(LASP)
                    N.link(e, p, l2, 'po_Fr')
                yield N.json()


M4 = [['M4', dict(T=.3)], ['M4', dict(T=.5, L=.04, Lt=.02, phase_deg=35, AOI=30)], ['M4', dict(T=.4, flip=True, BS=.1, bs_deg=25)]]
P4 = ['po_FrA', 'po_FrB', 'po_BkA', 'po_BkB']


def four_ports(tier):
    """a beamsplitter with everything which can hang from each port, and with every pair of ports joined"""
    stubs = ['', 'LAS', 'LASP', 'SP+M', 'ROT+M'] if tier == 'quick' else ['', 'LAS', 'LASP', 'SP+M', 'ROT+M', 'PM+SP+ML', 'SP+PMIR', 'QWP+M']
    for im, m4 in enumerate(M4 if tier != 'quick' else M4[1:]):
        for combo in itertools.product(stubs, repeat=4):
            if not any(c.startswith('LAS') for c in combo):
                continue
            if tier == 'quick' and sum(1 for c in combo if c.startswith('LAS')) > 1:
                continue
            N = Net()
            b = N.add(m4)
            for p, c in zip(P4, combo):
                if c == 'LAS':
                    N.link(N.add(LAS), 'po_Fr', b, p)
                elif c == 'LASP':
                    N.link(N.add(LASP), 'po_Fr', b, p)
                elif c:
                    N.chain(b, p, [(n, 0) for n in c.split('+')])
            yield N.json()
        for p, q in itertools.combinations(P4, 2):
            rest = [x for x in P4 if x not in (p, q)]
            for loop in itertools.product(['SP', 'ROT', 'PM', 'M', 'FAR', 'QWP'], repeat=2):
                for src in rest:
                    N = Net()
                    b = N.add(m4)
                    N.link(N.add(LAS), 'po_Fr', b, src)
                    N.chain(b, p, [(n, 0) for n in loop], end=(b, q))
                    yield N.json()
    # two beamsplitters: every way of joining two arms between them
    for m1, m2 in itertools.product(range(len(M4)), repeat=2):
        for (p1, p2), (q1, q2) in itertools.product(itertools.permutations(P4, 2), itertools.combinations(P4, 2)):
            if tier == 'quick' and (m1, m2) != (0, 1):
                continue
            N = Net()
            b1, b2 = N.add(M4[m1]), N.add(M4[m2])
            src = [x for x in P4 if x not in (p1, p2)][0]
            N.link(N.add(LAS), 'po_Fr', b1, src)
            N.chain(b1, p1, [('SP', 0), ('PM', 0)], end=(b2, q1))
            N.chain(b1, p2, [('ROT', 0)], end=(b2, q2))
            yield N.json()


def multi_ports(tier):
    """circulators, polarization selectors and polarizing beamsplitters with everything on each port"""
    stubs = ['', 'LAS', 'LASP', 'SP+M', 'QWP+ML'] if tier == 'quick' else ['', 'LAS', 'LASP', 'SP+M', 'QWP+ML', 'ROT+M', 'FAR+SP+MT']
    devs = [(['CIRC', dict(N=3)], ['P0', 'P1', 'P2']), (['PSEL', {}], ['po_Fr', 'Bk_P', 'Bk_S']), (['CIRC', dict(N=4)], ['P0', 'P1', 'P2', 'P3'])]
    for pas in ('P', 'S'):
        devs.append((['PBS', {'pass': pas, 'sd': .1, 'rd': .02}], P4))
    devs.append((['PBS', {'pass': 'S'}], P4))
    for dev, ports in devs:
        for combo in itertools.product(stubs, repeat=len(ports)):
            nl = sum(1 for c in combo if c.startswith('LAS'))
            if not nl or (tier == 'quick' and nl > 1) or nl > 2:
                continue
            if tier == 'quick' and len(ports) == 4 and 'LAS' in combo and 'QWP+ML' not in combo:
                continue
            N = Net()
            b = N.add(dev)
            rotate = dev[0] in ('PSEL', 'PBS')
            for p, c in zip(ports, combo):
                if c.startswith('LAS'):
                    l = N.add(LAS if c == 'LAS' else LASP)
                    N.chain(l, 'po_Fr', [('ROT', 0)] if rotate else [], end=(b, p))
                elif c:
                    N.chain(b, p, [(n, 0) for n in c.split('+')])
            yield N.json()
