# -*- coding: utf-8 -*-
"""
Beam layouts: ray (ABCD) matrices and Gaussian beams through placed, nested, reversed and truncated optics.
"""
import itertools
import numpy as np
from mc.core import Family, Violation

ASSUMPTIONS = [
    "oracle: rays (y, n*theta) refracted surface by surface; a reversed sequence is J M^-1 J with J = diag(1,-1)",
    "thin lenses and generic matrices are judged in a layout whose environment has index 1; index-dependent optics also in glass and nitrogen",
    "exactly at the position of a thin optic the side is not defined: queries by position avoid these points",
    "mounts, SystemStack built from a user list and constraints are outside of this property",
]
LAM = 1064e-9
J = np.diag([1., -1.])


def A():
    from phasor import alm
    return alm


def sp(d, n):
    return np.array([[1, d / n], [0, 1.]])


def surf(R, n1, n2):
    return np.array([[1., 0], [0. if R is None else -(n2 - n1) / R, 1]])


def lens(f):
    return np.array([[1., 0], [-1. / f, 1]])


def mir(R, n):
    return np.array([[1., 0], [0. if R is None else -2. * n / R, 1]])


NG = {'vacuum': 1., 'nitrogen': 1.0002952, 'fused_silica': 1.4496, 'BK7': 1.5066, 'PPKTP': 1.8302}


def subst(name):
    return getattr(A(), 'substrate_' + name)


# an element: (kind, parameters...) ; width, constructor and primitive sequence of (matrix, width) from left to right
def prims(el, nenv):
    k = el[0]
    if k == 'lens':
        return [(lens(el[1]), 0.)]
    if k == 'mirror':
        return [(mir(el[1], nenv), 0.)]
    if k == 'generic':
        a, b, c = el[1:]
        return [(np.array([[a, b], [c, (1 + b * c) / a]]), 0.)]
    if k in ('nop', 'target'):
        return [(np.eye(2), 0.)]
    if k == 'space':
        L, s = el[1:]
        n = nenv if s is None else NG[s]
        return [(sp(L, n), L)]
    if k == 'plcx':
        R, L, s = el[1:]
        n = NG[s]
        return [(surf(R, nenv, n), 0.), (sp(L, n), L), (surf(None, n, nenv), 0.)]
    if k == 'cxcx':
        R1, R2, L, s = el[1:]
        n = NG[s]
        return [(surf(R1, nenv, n), 0.), (sp(L, n), L), (surf(-R2, n, nenv), 0.)]
    if k == 'plcxm':
        R, L, s = el[1:]
        n = NG[s]
        return [(surf(None, nenv, n), 0.), (sp(L, n), L), (mir(R, n), 0.), (sp(L, n), L), (surf(None, n, nenv), 0.)]
    raise ValueError(k)


def width(el):
    return sum(w for m, w in prims(el, 1.))


def make(el, **kw):
    a = A()
    k = el[0]
    if k == 'lens':
        return a.ThinLens(f_m=el[1], **kw)
    if k == 'mirror':
        if el[1] is None:
            return a.Mirror(R_preferred=None, **kw) if not hasattr(a.Mirror, 'ROC_preferred') else a.Mirror(ROC_preferred=None, **kw)
        return a.Mirror(R_m=el[1], **kw)
    if k == 'generic':
        return a.ABCDGeneric(A=el[1], B=el[2], C=el[3], **kw)
    if k == 'nop':
        return a.NoP(**kw)
    if k == 'target':
        return a.BeamTarget(q_raw=a.ComplexBeamParam.from_Z_ZR(el[1].real, el[1].imag), **kw)
    if k == 'space':
        if el[2] is None:
            return a.Space(L_m=el[1], **kw)
        return a.Space(L_m=el[1], substrate=subst(el[2]), **kw)
    if k == 'plcx':
        return a.PLCX(R_m=el[1], L_m=el[2], substrate_inner=subst(el[3]), **kw)
    if k == 'cxcx':
        return a.CXCX(R1_m=el[1], R2_m=el[2], L_m=el[3], substrate_inner=subst(el[4]), **kw)
    if k == 'plcxm':
        return a.PLCXMirror(R_m=el[1], L_m=el[2], substrate_inner=subst(el[3]), **kw)
    raise ValueError(k)


class Seq(object):
    """reference layout: a list of primitives with labels, from left to right"""

    def __init__(self, items=()):
        self.items = list(items)            # (matrix, width, labels)

    def reversed(self):
        return Seq([(J.dot(np.linalg.inv(m)).dot(J), w, lab) for m, w, lab in self.items[::-1]])

    def total(self):
        m = np.eye(2)
        for x, w, l in self.items:
            m = x.dot(m)
        return m

    def width(self):
        return sum(w for m, w, l in self.items)

    def span(self, label):
        """(start z, end z, matrix from the left to the start, matrix from the left to the end) of a labelled part"""
        z, m, out = 0., np.eye(2), None
        for x, w, labs in self.items:
            if label in labs:
                if out is None:
                    out = [z, None, m, None]
                m = x.dot(m)
                z += w
                out[1], out[3] = z, m
            else:
                m = x.dot(m)
                z += w
        return out

    def at(self, zq, nenv):
        """matrix from the left end to the position z (free space beyond the ends)"""
        z, m = 0., np.eye(2)
        if zq < 0:
            return sp(zq, nenv)
        for x, w, labs in self.items:
            if w and zq <= z + w:
                f = (zq - z) / w
                return np.array([[1, x[0, 1] * f], [0, 1]]).dot(m)
            m = x.dot(m)
            z += w
        return sp(zq - z, nenv).dot(m)

    def thin_points(self):
        z, out = 0., []
        for x, w, labs in self.items:
            if not w and abs(x - np.eye(2)).max() > 1e-12:
                out.append(z)
            z += w
        return out


def layout_seq(children, nenv, rev=False, bounds=None, prefix=''):
    """children: list of (name, loc, element or ('sys', children, rev, bounds)) ; sorted by position; gaps are spaces of the environment"""
    out = []
    pos = None
    ch = sorted(children, key=lambda c: c[1])
    if bounds:
        l, r = bounds
        ch = [c for c in ch if (l is None or c[1] >= l) and (r is None or c[1] <= r)]
        if l is not None:
            pos = l
    for name, loc, el in ch:
        if pos is not None:
            out.append((sp(loc - pos, nenv), loc - pos, ()))
        path = prefix + name
        if el[0] == 'sys':
            inner = layout_seq(el[1], nenv, rev=el[2], bounds=el[3], prefix=path + '.')
            part = [(m, w, labs + (path,)) for m, w, labs in inner.items]
        else:
            part = [(m, w, (path,)) for m, w in prims(el, nenv)]
        out.extend(part)
        pos = loc + sum(w for m, w, l in part)
    if bounds and bounds[1] is not None:
        out.append((sp(bounds[1] - pos, nenv), bounds[1] - pos, ()))
    s = Seq(out)
    return s.reversed() if rev else s


def walk(children, prefix=''):
    for name, loc, el in children:
        yield prefix + name, el
        if el[0] == 'sys':
            for x in walk(el[1], prefix + name + '.'):
                yield x


def insert(sysobj, children):
    for name, loc, el in children:
        insert1(sysobj, name, loc, el)


def insert1(sysobj, name, loc, el):
    if el[0] == 'sys':
        kw = {}
        if el[3]:
            if el[3][0] is not None:
                kw['boundary_left_m'] = el[3][0]
            if el[3][1] is not None:
                kw['boundary_right_m'] = el[3][1]
        setattr(sysobj.own, name, A().System(loc_m=loc, reversed=el[2], **kw))
        insert(getattr(sysobj, name), el[1])
    else:
        setattr(sysobj.own, name, make(el, loc_m=loc))


def build(children, env='vacuum', rev=False):
    root = A().RootSystem(env_substrate=subst(env), reversed=rev)
    insert(root, children)
    return root


def obj(root, path):
    o = root
    for p in path.split('.'):
        o = getattr(o, p)
    return o


def q_apply(m, q):
    return (m[0, 0] * q + m[0, 1]) / (m[1, 0] * q + m[1, 1])


def cq(q):
    return np.asarray(q.value.real) + 1j * np.asarray(q.value.imag)


def judge(ctx, root, children, env='vacuum', rev=False, what='', deep=True):
    nenv = NG[env]
    ref = layout_seq(children, nenv, rev=rev)
    tol = dict(rtol=1e-8, atol=1e-8)
    ctx.step()
    ctx.close(root.matrix, ref.total(), what + 'matrix of the layout', **tol)
    ctx.close(root.matrix_inv, np.linalg.inv(ref.total()), what + 'inverse matrix of the layout', **tol)
    ctx.close(root.width_m, ref.width(), what + 'width of the layout', **tol)
    pts = {}
    targets = []
    for path, el in walk(children):
        s = ref.span(path)
        if s is None:
            continue            # truncated away
        o = obj(root, path)
        for k, d in enumerate(('left', 'right')):
            t = o.as_target(d)
            pts[path, d] = (t, s[k], s[2 + k])
            ctx.close(root.target_pos(t), s[k], what + 'position of the {0} of {1}'.format(d, path), **tol)
        if el[0] == 'target':
            targets.append((path, el, o))
            owner_rev = rev
            cur, chs = '', children
            for p in path.split('.')[:-1]:
                e = [c for c in chs if c[0] == p][0][2]
                owner_rev ^= bool(e[2])
                chs = e[1]
            q = el[1]
            if owner_rev:
                q = -np.conj(q)
            ctx.close(cq(o.beam_q), q, what + 'beam of target {0}'.format(path), **tol)
    ends = {('', 'left'): (A().TargetLeft, 0, np.eye(2)), ('', 'right'): (A().TargetRight, ref.width(), ref.total())}
    ends.update(pts)
    for (k1, (t1, z1, m1)), (k2, (t2, z2, m2)) in itertools.product(sorted(ends.items()), repeat=2):
        got = root.matrix_between(t1, t2)
        ctx.step()
        ctx.close(got, m2.dot(np.linalg.inv(m1)), lambda: what + 'matrix from {0} to {1}'.format(k1, k2), **tol)
    if not deep:
        return ref, targets
    thin = ref.thin_points()
    W = ref.width()
    grid = [W * x for x in (.03, .17, .29, .41, .53, .67, .79, .91)] + [-.11, W + .13]
    z = 0.
    for x, w, labs in ref.items:            # the middle of every thick part
        if w:
            grid.append(z + .4 * w)
        z += w
    grid = sorted(set(g for g in grid if all(abs(g - t) > 1e-9 for t in thin)))
    for zq in grid:
        ctx.close(root.matrix_at_single(zq), ref.at(zq, nenv), lambda: what + 'matrix from the left end to z={0}'.format(zq), **tol)
        ctx.step()
    meas = root.measurements
    for path, el, o in targets:
        t = meas.target_idx(path) if '.' not in path else o.as_target()
        m0 = ref.span(path)[2]
        q0 = cq(o.beam_q)
        for zq in grid:
            want = ref.at(zq, nenv).dot(np.linalg.inv(m0))
            ctx.step()
            ctx.close(root.matrix_target_to_z_single(t, zq), want, lambda: what + 'matrix from {0} to z={1}'.format(path, zq), **tol)
            ctx.close(cq(meas.q_target_z(zq, t)), q_apply(want, q0), lambda: what + 'beam of {0} at z={1}'.format(path, zq), **tol)
        # arrays of positions, in any order
        for g in (grid, grid[::-1], grid[1::2] + grid[::2]):
            want = np.array([q_apply(ref.at(zq, nenv).dot(np.linalg.inv(m0)), q0) for zq in g])
            ctx.close(cq(meas.q_target_z(np.array(g), t)), want, lambda: what + 'beam of {0} at the positions {1}'.format(path, g), **tol)
            ctx.step()
    return ref, targets


# ------------------------------------------------------------------------------------------ families
THIN = [('lens', .3), ('lens', -.5), ('mirror', .8), ('generic', .5, .2, -1.), ('nop',)]
THICK = [('plcx', .25, .04, 'fused_silica'), ('plcx', -.4, .05, 'BK7'), ('cxcx', .3, .6, .03, 'BK7'), ('plcxm', .7, .03, 'fused_silica'),
         ('space', .06, None), ('space', .07, 'PPKTP')]
TQ = ('target', .05 + .3j)
GAPS = (.11, .0, .23)


def place(els, start=0., gaps=GAPS):
    """names and positions of a sequence of elements"""
    out, z = [], start
    for i, e in enumerate(els):
        out.append(('e{0}'.format(i), round(z, 6), e))
        w = width(e) if e[0] != 'sys' else layout_seq(e[1], 1., bounds=e[3]).width()
        z += w + gaps[i % len(gaps)]
    return out


def zero_gap_ok(ch):
    """two objects of zero width at the same position have no defined order"""
    z = [(c[1]) for c in ch]
    return len(set(z)) == len(z)


def flat_cases(tier):
    al = THIN + THICK + [TQ]
    n = 3 if tier == 'thorough' else 2
    for r in range(1, n + 1):
        for els in itertools.product(range(len(al)), repeat=r):
            for rev in (0, 1):
                if r == 3 and rev and tier != 'thorough':
                    continue
                yield [list(els), rev]


def flat_run(case, ctx):
    els, rev = case
    al = THIN + THICK + [TQ]
    seq = [al[i] for i in els]
    if not any(e[0] == 'target' for e in seq):
        seq = [TQ] + seq
    ch = place(seq, gaps=(.11, .05, .23))
    ctx.state('flat', case)
    ctx.cls('length={0}'.format(len(els)))
    root = build(ch, rev=bool(rev))
    judge(ctx, root, ch, rev=bool(rev))
    ctx.trace()


def nested_cases(tier):
    al = [('lens', .3), ('generic', .5, .2, -1.), ('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('plcxm', .7, .03, 'fused_silica')]
    for a, b in itertools.product(range(len(al)), repeat=2):
        for revs in itertools.product((0, 1), repeat=3):
            for tpos in range(3):
                if tier != 'thorough' and (a + 2 * b + tpos) % 3:
                    continue
                yield [a, b, list(revs), tpos]
    if tier == 'thorough':
        for a, b in itertools.product(range(len(al)), repeat=2):
            for revs in itertools.product((0, 1), repeat=3):
                for tpos in range(3):
                    yield [a, b, list(revs), tpos, 'offset']


def nested_run(case, ctx):
    a, b, revs, tpos = case[:4]
    off = .07 if len(case) > 4 else 0.
    al = [('lens', .3), ('generic', .5, .2, -1.), ('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('plcxm', .7, .03, 'fused_silica')]
    inner = place([al[b], ('lens', .9)] + ([TQ] if tpos == 0 else [('nop',)]), start=off, gaps=(.05, .06, .07))
    mid = place([('lens', -.6), ('sys', inner, bool(revs[2]), None), al[a]] + ([TQ] if tpos == 1 else []), start=off, gaps=(.08, .09, .03))
    top = place([('nop',) if tpos != 2 else TQ, ('sys', mid, bool(revs[1]), None), al[b]], gaps=(.1, .04, .05))
    ctx.state('nested', case)
    ctx.cls('revs={0}'.format(revs))
    root = build(top, rev=bool(revs[0]))
    judge(ctx, root, top, rev=bool(revs[0]))
    ctx.trace()


def index_cases(tier):
    als = [('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('plcxm', .7, .03, 'fused_silica'), ('space', .07, 'PPKTP'), ('space', .05, None),
           ('mirror', .8), ('plcx', .3, .02, 'PPKTP')]
    for env in ('nitrogen', 'fused_silica'):
        for r in (1, 2) if tier != 'thorough' else (1, 2, 3):
            for els in itertools.product(range(len(als)), repeat=r):
                for rev in (0, 1):
                    yield [env, list(els), rev]


def index_run(case, ctx):
    env, els, rev = case
    als = [('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('plcxm', .7, .03, 'fused_silica'), ('space', .07, 'PPKTP'), ('space', .05, None),
           ('mirror', .8), ('plcx', .3, .02, 'PPKTP')]
    ch = place([TQ] + [als[i] for i in els], gaps=(.11, .05, .23))
    ctx.state('index', case)
    ctx.cls('env=' + env)
    root = build(ch, env=env, rev=bool(rev))
    judge(ctx, root, ch, env=env, rev=bool(rev))
    ctx.trace()


def history_cases(tier):
    """the order in which objects are inserted, and the queries made in between, do not matter"""
    n = 4
    for perm in itertools.permutations(range(n)):
        for queries in itertools.product((0, 1), repeat=n - 1):
            if tier != 'thorough' and sum(queries) not in (0, 1, n - 1):
                continue
            for nest in (0, 1):
                yield [list(perm), list(queries), nest]


def history_run(case, ctx):
    perm, queries, nest = case
    els = place([TQ, ('lens', .3), ('plcx', .25, .04, 'fused_silica'), ('lens', -.5)], gaps=(.11, .05, .23))
    ctx.state('history', case)
    root = A().RootSystem(env_substrate=subst('vacuum'))
    top = []
    host = root
    if nest:
        root.own.pre = A().BeamTarget(loc_m=0, q_raw=A().ComplexBeamParam.from_Z_ZR(0, .4))
        root.own.sub = A().System(loc_m=.1, reversed=True)
        host = root.sub
    cur = []
    for k, i in enumerate(perm):
        name, loc, el = els[i]
        insert1(host, name, loc, el)
        cur.append((name, loc, el))
        if k == len(perm) - 1 or queries[k]:
            top = [('pre', 0., ('target', .4j)), ('sub', .1, ('sys', list(cur), True, None))] if nest else list(cur)
            if not nest and len(cur) == 1 and cur[0][2][0] != 'target' and False:
                continue
            judge(ctx, root, top, what='after {0} insertions: '.format(k + 1), deep=(k == len(perm) - 1))
    # a regenerated copy is the same layout
    judge(ctx, root.regenerate(), top, what='regenerated: ')
    judge(ctx, root, top, what='original after regeneration: ')
    ctx.trace()


def trunc_cases(tier):
    els = [('lens', .3), ('plcx', .25, .04, 'fused_silica'), ('lens', -.5), ('lens', .7)]
    edges = [None, -.05, .05, .2, .3, .45, .6]
    for l, r in itertools.product(edges, repeat=2):
        if l is not None and r is not None and r <= l:
            continue
        for rev in (0, 1):
            yield [l, r, rev]


def trunc_run(case, ctx):
    l, r, rev = case
    els = place([('lens', .3), ('plcx', .25, .04, 'fused_silica'), ('lens', -.5), ('lens', .7)], gaps=(.11, .1, .13))
    # positions 0, .11-.15, .25, .38
    kept = [e for e in els if (l is None or e[1] >= l) and (r is None or e[1] <= r)]
    ctx.state('trunc', case)
    ctx.cls('kept={0}'.format(len(kept)))
    if not kept:
        return
    top = [('t', 0., TQ), ('sub', .1, ('sys', els, bool(rev), [l, r])), ('end', 1.2, ('lens', .4))]
    root = build(top)
    judge(ctx, root, top)
    ctx.trace()


# the beam parameter itself
QS = [.3j, .2 + .1j, -.4 + .25j, 1.3 + .05j, -.02 + 2.j]
MS = [('sp', .4), ('sp', -.7), ('lens', .3), ('lens', -.2), ('mir', .5), ('gen', .5, .2, -1.)]


def mmat(m):
    return {'sp': lambda: sp(m[1], 1.), 'lens': lambda: lens(m[1]), 'mir': lambda: mir(m[1], 1.), 'gen': lambda: prims(('generic',) + tuple(m[1:]), 1.)[0][0]}[m[0]]()


def beam_cases(tier):
    n = 4 if tier == 'thorough' else 3
    for q in range(len(QS)):
        for lam in (1.064e-6, .532e-6):
            for r in range(1, n + 1):
                for ms in itertools.product(range(len(MS)), repeat=r):
                    yield [q, lam, list(ms)]


def ang(x):
    return np.angle(complex(x.real, x.imag))


def beam_run(case, ctx):
    qi, lam, ms = case
    a = A()
    C = a.ComplexBeamParam
    q = QS[qi]
    b = C.from_Z_ZR(q.real, q.imag, wavelen=lam)
    ctx.state('beam', case)
    ctx.step(len(ms) + 1)
    seq = [mmat(MS[i]) for i in ms]
    tot = np.eye(2)
    gouy = 0.
    cur = b
    qq = q
    for m in seq:
        new = cur.propagate_matrix(np.matrix(m))
        gouy -= np.angle(m[0, 0] + m[0, 1] / qq)
        qq = q_apply(m, qq)
        tot = m.dot(tot)
        ctx.close(cq(new), qq, 'propagated beam', rtol=1e-9, atol=1e-11)
        ctx.require(qq.imag > 0, 'reference beam lost its sign')
        ctx.close(np.exp(1j * ang(new.gouy_phasor)), np.exp(1j * gouy), 'accumulated Gouy phase', rtol=1e-7, atol=1e-7)
        cur = new
    once = b.propagate_matrix(np.matrix(tot))
    ctx.close(cq(once), cq(cur), 'composed propagation', rtol=1e-9, atol=1e-11)
    ctx.close(np.exp(1j * ang(once.gouy_phasor)), np.exp(1j * gouy), 'composed Gouy phase', rtol=1e-6, atol=1e-6)
    # the same beam from its other descriptions
    for n, x in (('start', b), ('end', cur)):
        z, zr = cq(x).real, cq(x).imag
        w0 = np.sqrt(lam * zr / np.pi)
        w = w0 * np.sqrt(1 + (z / zr)**2)
        t = dict(rtol=1e-8, atol=1e-13)
        ctx.close(x.wavelen, lam, n + ': wavelength', **t)
        ctx.close([x.Z, x.ZR, x.W0, x.W], [z, zr, w0, w], n + ': Z, ZR, W0, W', **t)
        ctx.close(x.R_inv, z / (z * z + zr * zr), n + ': curvature', rtol=1e-8, atol=1e-12)
        ctx.close(x.divergence_rad, 2 * lam / np.pi / w0, n + ': divergence', **t)
        for d, y in (('from_Z_W0', C.from_Z_W0(z, x.W0, wavelen=lam)), ('from_dRad_Z', C.from_dRad_Z(x.divergence_rad, z, wavelen=lam)),
                     ('from_W_R', C.from_W_R(x.W, x.R, wavelen=lam) if abs(x.R_inv) > 1e-9 else C.from_W_R(x.W, 0, wavelen=lam)),
                     ('propagate_distance there and back', x.propagate_distance(.37).propagate_distance(-.37)),
                     ('reversed twice', x.reversed().reversed())):
            ctx.close(cq(y), cq(x), n + ': ' + d, rtol=1e-6, atol=1e-9)
            ctx.step()
        ctx.close(cq(x.reversed()), -np.conj(cq(x)), n + ': reversed', **t)
    # overlaps are invariant under the propagation of both beams, symmetric and at most 1
    for q2 in QS:
        c = C.from_Z_ZR(q2.real, q2.imag, wavelen=lam)
        ov = abs(complex(*(lambda o: (o.real, o.imag))(b.overlap_with(c))))
        want = 2 * np.sqrt(q.imag * q2.imag) / abs(q2 - np.conj(q))
        ctx.close(ov, want, 'overlap of two beams', rtol=1e-8)
        o2 = cur.overlap_with(c.propagate_matrix(np.matrix(tot)))
        ctx.close(abs(complex(o2.real, o2.imag)), want, 'overlap after propagation', rtol=1e-6, atol=1e-7)
        ctx.step(2)
    ctx.trace()


def cavity_cases(tier):
    Rs = [.2, .35, .6, 1.5]
    Ls = [.05, .15, .3, .55, .9]
    for R1, R2, L in itertools.product(Rs, Rs, Ls):
        yield ['linear', R1, R2, L]
    for R1, f, L in itertools.product(Rs, (.3, -.4, .9), Ls):
        yield ['lens', R1, f, L]


def cavity_run(case, ctx):
    a = A()
    kind, R1, x, L = case
    if kind == 'linear':
        ch = [('m1', 0., ('mirror', R1)), ('m2', L, ('mirror', x)), ('ret', 2 * L, ('nop',))]
    else:
        ch = [('m1', 0., ('mirror', R1)), ('l1', L, ('lens', x)), ('ret', 2 * L, ('nop',))]
    ref = layout_seq(ch, 1.)
    M = ref.total()
    s = (M[0, 0] + M[1, 1]) / 2
    ctx.cls('stable' if abs(s) < .999 else 'unstable')
    ctx.state('cavity', case)
    if abs(s) >= .999:
        return
    root = a.RootSystem(env_substrate=subst('vacuum'))
    root.own.q1 = a.BeamTarget(loc_m=0, q_system=a.System(loc_m=0))
    insert(root.q1.q_system, ch)
    q = cq(root.q1.beam_q)
    ctx.step()
    ctx.require(q.imag > 0, 'mode of a stable cavity has Im q = {0}'.format(q))
    ctx.close(q_apply(M, q), q, 'mode of the cavity after a round trip', rtol=1e-7, atol=1e-9)
    root.own.cav = root.q1.q_system.replica_generate(loc_m=.0)
    root.own.cav2 = root.q1.q_system.replica_generate(loc_m=2 * L)
    ctx.close(root.cav.width_m, 2 * L, 'width of a replica', rtol=1e-9)
    ctx.close(root.matrix, M.dot(M), 'two replicas of the cavity', rtol=1e-7, atol=1e-8)
    ctx.close(cq(root.measurements.q_target_z(4 * L + .1, 'q1')), q + .1, 'mode after two round trips', rtol=1e-6, atol=1e-8)
    ctx.close(abs(root.measurements.target_q('right').W), np.sqrt(LAM / np.pi * abs(q)**2 / q.imag), 'size of the mode after two round trips', rtol=1e-6)
    ctx.trace()


def report_cases(tier):
    """what is reported about a layout: every lens and mirror once at its position, the waists, relative Gouy phases"""
    al = [('lens', .3), ('lens', -.5), ('mirror', .8), ('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('lens', .15)]
    for els in itertools.product(range(len(al)), repeat=2):
        for q in range(len(QS)):
            for tp in (0, 1, 2):
                for rev in (0, 1):
                    yield [list(els), q, tp, rev]


def report_run(case, ctx):
    els, qi, tp, rev = case
    al = [('lens', .3), ('lens', -.5), ('mirror', .8), ('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('lens', .15)]
    seq = [al[i] for i in els]
    seq = seq[:tp] + [('target', QS[qi])] + seq[tp:]
    seq = [('nop',)] + seq + [('nop',)]
    ch = place(seq, gaps=(.21, .15, .33))
    ctx.state('report', case)
    root = build(ch, rev=bool(rev))
    ref = layout_seq(ch, 1., rev=bool(rev))
    m = root.measurements
    ctx.step(4)
    tname = 'e{0}'.format(tp + 1)
    pos = ref.span(tname)[0]
    m0 = ref.span(tname)[2]
    q0 = cq(obj(root, tname).beam_q)
    for kind, got in (('lens', m.lens_descriptions()), ('mirror', m.mirror_descriptions())):
        want = []
        for n, loc, e in ch:
            if e[0] == kind or (kind == 'lens' and e[0] in ('plcx', 'cxcx')):
                s = ref.span(n)
                tot = s[3].dot(np.linalg.inv(s[2]))
                z = s[0] if s[0] >= pos else s[1]
                want.append((round(z, 9), -1 / tot[1, 0], s[0] + s[1] - z))
        g = sorted((round(float(d.z), 9), float(d.f_m), float(d.z + (d.get('width_m', None) or 0))) for d in got)
        ctx.require(len(g) == len(want), '{0} {1} reported, {2} expected'.format(len(g), kind, len(want)))
        ctx.close(np.array(g), np.array(sorted(want)), kind + ' descriptions (position, focal length, other end)', rtol=1e-7, atol=1e-8)
    # waists within the spaces of the environment
    want = []
    z = 0.
    for x, w, labs in ref.items:
        if w and not labs:
            qz = q_apply(ref.at(z + 1e-12, 1.).dot(np.linalg.inv(m0)), q0) if False else None
            A0 = np.eye(2)
            zz = 0.
            for y, v, l2 in ref.items:
                if zz == z and y is x:
                    break
                A0 = y.dot(A0)
                zz += v
            qz = q_apply(A0.dot(np.linalg.inv(m0)), q0)
            zw = -qz.real
            if 1e-6 < zw < w - 1e-6:
                want.append((z + zw, qz.imag))
            elif -1e-6 <= zw <= 1e-6 or w - 1e-6 <= zw <= w + 1e-6:
                return           # a waist on an edge belongs to either side
        z += w
    inglass = []
    z = 0.
    for n, loc, e in ch:
        if e[0] in ('plcx', 'cxcx'):
            s = ref.span(n)
            inglass.append((s[0] - 1e-9, s[1] + 1e-9))
    got = sorted((float(d.z), float(d.ZR)) for d in m.waist_descriptions() if not any(l <= d.z <= r for l, r in inglass))
    ctx.require(len(got) == len(want), 'waists reported {0}, expected {1}'.format(got, want))
    if want:
        ctx.close(np.array(got), np.array(sorted(want)), 'waists (position, Rayleigh range)', rtol=1e-6, atol=1e-8)
    # Gouy phase between the two ends, along the beam
    names = ['e0', 'e{0}'.format(len(ch) - 1)]
    za, zb = .05 * ref.width(), .97 * ref.width()
    if all(abs(t - za) > 1e-9 and abs(t - zb) > 1e-9 for t in ref.thin_points()):
        Ma, Mb = ref.at(za, 1.).dot(np.linalg.inv(m0)), ref.at(zb, 1.).dot(np.linalg.inv(m0))
        mm = Mb.dot(np.linalg.inv(Ma))
        qa = q_apply(Ma, q0)
        got = m.relative_gouy_phasor(za, zb, beam_source=tname)
        gp = np.conj(mm[0, 0] + mm[0, 1] / qa)
        ctx.close(complex(got.real, got.imag), gp / abs(gp), 'relative Gouy phase', rtol=1e-6, atol=1e-7)
    ctx.trace()


def unit_cases(tier):
    for u in ('m', 'mm', 'cm', 'in', 'ft', 'um'):
        for pos in (0, 1, 2):
            for rev in (0, 1):
                yield [u, pos, rev]


UN = {'m': 1., 'mm': 1e-3, 'cm': 1e-2, 'in': .0254, 'ft': .3048, 'um': 1e-6}


def unit_run(case, ctx):
    """lengths given in any unit"""
    u, pos, rev = case
    a = A()
    k = UN[u]
    root = a.RootSystem(env_substrate=subst('vacuum'), reversed=bool(rev))
    ctx.state('unit', case)
    kw = [{'loc_' + u: .1 / k, 'f_m': .3}, {'loc_m': .1, 'f_' + u: .3 / k}, {'loc_' + u: .1 / k, 'f_' + u: .3 / k}][pos]
    root.own.e0 = a.NoP(loc_m=0)
    root.own.e1 = a.ThinLens(**kw)
    root.own.e2 = a.PLCX(loc_m=.2, **({'R_' + u: .25 / k, 'L_m': .04} if pos == 0 else {'R_m': .25, 'L_' + u: .04 / k} if pos == 1 else {'R_' + u: .25 / k, 'L_' + u: .04 / k}))
    root.own.e3 = a.Space(loc_m=.3, **{'L_' + u: .08 / k})
    ch = [('e0', 0., ('nop',)), ('e1', .1, ('lens', .3)), ('e2', .2, ('plcx', .25, .04, 'fused_silica')), ('e3', .3, ('space', .08, None))]
    judge(ctx, root, ch, rev=bool(rev))
    for v in UN:
        ctx.close(getattr(root.e1, 'loc_' + v).val * UN[v] if False else root.e1.loc_m.val, .1, 'position in m')
    ctx.trace()


def regen_cases(tier):
    moves = [('e1', 'loc', .16), ('e1', 'f', .7), ('e2', 'loc', .24), ('e2', 'R', .9), ('e2', 'L', .02), ('e3', 'loc', .52), ('e3', 'f', -.2), ('e0', 'loc', -.04)]
    for r in (1, 2):
        for c in itertools.combinations(range(len(moves)), r):
            for rev in (0, 1):
                for solved in (0, 1):
                    yield [list(c), rev, solved]


def regen_run(case, ctx):
    """regeneration with other values gives the layout of these values, and leaves the original as it was"""
    c, rev, solved = case
    moves = [('e1', 'loc', .16), ('e1', 'f', .7), ('e2', 'loc', .24), ('e2', 'R', .9), ('e2', 'L', .02), ('e3', 'loc', .52), ('e3', 'f', -.2), ('e0', 'loc', -.04)]
    sel = [moves[i] for i in c]
    if len(set((n, w) for n, w, v in sel)) < len(sel):
        return
    ctx.state('regen', case)
    ch = [('e0', 0., TQ), ('e1', .11, ('lens', .3)), ('e2', .2, ('plcx', .25, .04, 'fused_silica')), ('e3', .47, ('lens', -.5)), ('e4', .6, ('nop',))]
    root = build(ch, rev=bool(rev))
    if solved:
        root.matrix
    sh = root.ctree_shadow()
    new = []
    for n, loc, e in ch:
        for m, w, v in sel:
            if m != n:
                continue
            getattr(sh, n)[{'loc': 'location', 'f': 'focal_length', 'R': 'ROC', 'L': 'length'}[w]].val = v
            if w == 'loc':
                loc = v
            elif w == 'f':
                e = ('lens', v)
            elif w == 'R':
                e = (e[0], v) + e[2:]
            else:
                e = (e[0], e[1], v) + e[3:]
        new.append((n, loc, e))
    judge(ctx, root.regenerate(ctree=sh), new, rev=bool(rev), what='regenerated: ')
    judge(ctx, root, ch, rev=bool(rev), what='original: ')
    ctx.trace()


FAMILIES = [
    Family('sequences', flat_cases, flat_run, 'all sequences of up to 2 (thorough 3) of 12 optics, both directions: matrices between all pairs of faces, positions, beams at positions and arrays of positions', cpu_s=60),
    Family('nested', nested_cases, nested_run, 'three nested layouts with every combination of reversals, beam target at each level (thorough: offset)', cpu_s=60),
    Family('indices', index_cases, index_run, 'sequences of up to 2 (thorough 3) thick optics in nitrogen and glass environments', cpu_s=60),
    Family('histories', history_cases, history_run, 'every order of 4 insertions with queries in between, flat and nested, regenerated', cpu_s=60),
    Family('regeneration', regen_cases, regen_run, 'one or two of 8 values replaced in a regenerated layout', cpu_s=60),
    Family('truncation', trunc_cases, trunc_run, 'all pairs of 6 truncation edges, both directions', cpu_s=60),
    Family('beams', beam_cases, beam_run, 'all products of up to 3 (thorough 4) of 6 matrices on 5 beams at 2 wavelengths', cpu_s=60),
    Family('cavities', cavity_cases, cavity_run, 'two mirror and mirror-lens cavities on a grid of curvatures and lengths', cpu_s=60),
    Family('reports', report_cases, report_run, 'pairs of 6 optics x 5 beams x position of the beam target x direction: reported lenses, mirrors, waists and Gouy phase', cpu_s=60),
    Family('units', unit_cases, unit_run, 'lengths in 6 units', cpu_s=60),
]
