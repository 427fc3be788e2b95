# -*- coding: utf-8 -*-
"""
Several beams in one layout: overlaps, beams by name and position, reports per beam, sensitivity to misalignment, profiles.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from checks.A01 import A, LAM, build, layout_seq, place, q_apply, cq, obj, subst, insert, sp

ASSUMPTIONS = [
    "oracle: surface by surface ray tracing of A01, closed form overlap of Gaussian beams, numerical integrals of the profiles",
    "the overlap is that of the two dimensional amplitudes (its modulus is judged), the reported lists hold its fourth power",
    "beam targets are never at the place of a thin optic",
    "the phases of overlaps, detune descriptions and the excursions of more than one optic are not claimed (the quadratic form is)",
]
OPT = [('lens', .3), ('lens', -.5), ('mirror', .8), ('plcx', .25, .04, 'fused_silica'), ('cxcx', .3, .6, .03, 'BK7'), ('space', .07, 'PPKTP'), ('plcxm', .7, .03, 'fused_silica')]
QS = [.05 + .3j, -.2 + .15j, .4 + .6j]
TOL = dict(rtol=1e-7, atol=1e-8)


def cplx(o):
    return complex(o.real, o.imag)


def over(qa, qb):
    return 2 * np.sqrt(qa.imag * qb.imag) / abs(qb - np.conj(qa))


def cases(tier):
    n = len(OPT)
    for a, b in itertools.product(range(n), repeat=2):
        for order in range(3):
            for rev in (0, 1):
                for nest in ((0, 1, 2) if tier != 'quick' else (0, 1 + (a + b + order) % 2)):
                    for principal in (None, 'last'):
                        yield dict(ab=[a, b], order=order, rev=rev, nest=nest, principal=principal)


def layout(case):
    """three beam targets around two optics; nest: the optics and one target in an inner (reversed) layout"""
    a, b = [OPT[i] for i in case['ab']]
    qs = [('target', q) for q in (QS[case['order']:] + QS[:case['order']])]
    if case['nest'] == 0:
        seq = [[qs[0], a, qs[1], b, qs[2]], [a, qs[0], b, qs[1], qs[2]], [qs[0], qs[1], a, b, qs[2]]][case['order']]
        ch = place(seq, gaps=(.13, .21, .17, .09))
        return [('st', -.07, ('nop',))] + ch + [('en', ch[-1][1] + .3, ('nop',))]
    inner = place([a, qs[1], b], gaps=(.13, .21))
    sub = ('sys', inner, case['nest'] == 2, None)
    w = layout_seq(inner, 1.).width()
    return [('st', -.07, ('nop',)), ('e0', 0., qs[0]), ('sub', .12, sub), ('e2', round(.12 + w + .19, 6), qs[2]), ('en', round(.12 + w + .5, 6), ('nop',))]


def run(case, ctx):
    ch = layout(case)
    rev = bool(case['rev'])
    ref = layout_seq(ch, 1., rev=rev)
    names = []
    for n, loc, e in ch:
        if e[0] == 'target':
            names.append((n, n))
        if e[0] == 'sys':
            names.extend((n + '.' + m, n + '.' + m) for m, l, x in e[1] if x[0] == 'target')
    principal = None
    root = A().RootSystem(env_substrate=subst('vacuum'), reversed=rev)
    insert(root, ch)
    names = sorted((p for p, _ in names), key=lambda p: ref.span(p)[0])
    m = root.measurements
    ctx.state(case)
    ctx.cls('{0} {1}'.format(case['nest'], rev))
    if case['principal']:
        principal = names[-1]
        root = A().RootSystem(env_substrate=subst('vacuum'), reversed=rev, env_principle_target=None)
        insert(root, ch)
        m = root.measurements
        real = dict((p, [t for t in m.beam_targets.tname if m.target_obj(t) is obj(root, p)][0]) for p in names)
        root = A().RootSystem(env_substrate=subst('vacuum'), reversed=rev, env_principle_target=real[principal])
        insert(root, ch)
        m = root.measurements
    bt = m.beam_targets
    ctx.close(bt.z, [ref.span(p)[0] for p in names], 'positions of the beam targets', **TOL)
    real = {}
    for p, t in zip(names, bt.tname):
        ctx.require(m.target_obj(t) is obj(root, p), lambda: 'the {0} of the beam targets {1}'.format(p, bt.tname))
        ctx.close(m.target_z(t), ref.span(p)[0], 'position of ' + p, **TOL)
        real[p] = t
    q = dict((p, cq(obj(root, p).beam_q)) for p in names)
    M = dict((p, ref.span(p)[2]) for p in names)

    def between(a, b):
        return M[b].dot(np.linalg.inv(M[a]))
    ov = {}
    for a, b in itertools.product(names, repeat=2):
        mm = between(a, b)
        ctx.close(m.mat_target_between(real[a], real[b]), mm, lambda: 'matrix from {0} to {1}'.format(a, b), **TOL)
        ctx.close(cq(m.target_q(real[b], real[a])), q_apply(mm, q[a]), lambda: 'beam {0} at {1}'.format(a, b), **TOL)
        ov[a, b] = over(q_apply(mm, q[a]), q[b])
        ctx.close(abs(cplx(m.overlap(real[a], real[b]))), ov[a, b], lambda: 'overlap of {0} with {1}'.format(a, b), **TOL)
        ctx.close(ov[a, b], over(q_apply(between(b, a), q[b]), q[a]), 'overlap backwards (reference)', **TOL)
        ctx.step(3)
    succ = [ov[x, y]**4 for x, y in zip(names, names[1:])]
    ctx.close([float(abs(x)) for x in m.overlap_list()], succ, 'list of overlaps', **TOL)
    ctx.close(float(m.overlap_seq()), np.prod(succ), 'product of overlaps', **TOL)
    ctx.close(float(m.overlap_seq(real[names[1]])), succ[0], 'product of the overlaps into one beam', **TOL)
    ctx.close([float(x) for x in m.overlap_list(real[names[2]])], succ[1:], 'overlap into the last beam', **TOL)
    # from the principal beam, else the first
    src = principal or names[0]
    W = ref.width()
    thin = ref.thin_points()
    grid = [g for g in [W * x for x in (.07, .23, .38, .52, .66, .83, .97)] + [-.1, W + .2] if all(abs(g - t) > 1e-6 for t in thin)]
    for b in names:
        ctx.close(cq(m.target_q(real[b])), q_apply(between(src, b), q[src]), lambda: 'beam at {0}'.format(b), **TOL)
    for end, z, Me in ((A().TargetLeft, 0, np.eye(2)), (A().TargetRight, W, ref.total())):
        ctx.close(cq(m.target_q(end)), q_apply(Me.dot(np.linalg.inv(M[src])), q[src]), 'beam at the end', **TOL)
        ctx.close(cq(m.target_q('left' if z == 0 else 'right', real[names[1]])), q_apply(Me.dot(np.linalg.inv(M[names[1]])), q[names[1]]), 'beam at the end by name', **TOL)
    at = dict((z, ref.at(z, 1.)) for z in grid)
    for z in grid:
        ctx.close(cq(m.q_target_z(z)), q_apply(at[z].dot(np.linalg.inv(M[src])), q[src]), lambda: 'beam at z={0}'.format(z), **TOL)
        ctx.close(cq(m.target_q(z, real[names[1]])), q_apply(at[z].dot(np.linalg.inv(M[names[1]])), q[names[1]]), lambda: 'second beam at z={0}'.format(z), **TOL)
        ctx.step(2)
        zw = m.z_nearest_waist(z)
        ctx.close(zw, z - q_apply(at[z].dot(np.linalg.inv(M[src])), q[src]).real, 'nearest waist', **TOL)
    for a in names:
        want = np.array([at[z].dot(np.linalg.inv(M[a])) for z in grid])
        ctx.close(np.moveaxis(np.array(m.mat_target_z(real[a], np.array(sorted(grid)))), -1, 0), want[np.argsort(grid)], lambda: 'matrices from {0} to sorted positions'.format(a), **TOL)
        ctx.close(np.moveaxis(np.array(m.mat_target_z(real[a], np.array(grid[::-1]))), -1, 0), want[::-1], lambda: 'matrices from {0} to positions'.format(a), **TOL)
        ctx.close(np.array(m.mat_target_z(real[a], grid[2])), want[2], lambda: 'matrix from {0} to one position'.format(a), **TOL)
        ctx.step(3)
    ctx.close(np.moveaxis(np.array(m.matrix_at(grid[::-1])), -1, 0), np.array([at[z] for z in grid[::-1]]), 'matrices from the left end', **TOL)
    ctx.close(np.moveaxis(np.array(m.matrix_at_linsorted(np.array(sorted(grid)))), -1, 0), np.array([at[z] for z in sorted(grid)]), 'sorted matrices from the left end', **TOL)
    # Gouy phase accumulated between two places by the beam of each target
    for a in names:
        qa0 = q[a]
        places = [(real[b], M[b]) for b in names] + [(grid[1], at[grid[1]]), (grid[4], at[grid[4]])]
        for (n1, M1), (n2, M2) in itertools.permutations(places, 2):
            q1 = q_apply(M1.dot(np.linalg.inv(M[a])), qa0)
            mm = M2.dot(np.linalg.inv(M1))
            g = np.conj(mm[0, 0] + mm[0, 1] / q1)
            got = cplx(m.relative_gouy_phasor(n1, n2, beam_source=real[a]))
            ctx.close(got, g / abs(g), lambda: 'Gouy phase of {0} from {1} to {2}'.format(a, n1, n2), rtol=1e-6, atol=1e-7)
            c = abs((g / abs(g)).real)
            if c < .999999:
                ctx.close(float(m.relative_gouy_ellipticity(n1, n2, beam_source=real[a])), np.sqrt((1 + c) / (1 - c)), 'ellipticity', rtol=1e-4)
            ctx.step()
    # reports
    td = sorted((float(d.z), cq(d.q).real, cq(d.q).imag) for d in m.target_descriptions())
    ctx.close(np.array(td), np.array(sorted((float(ref.span(p)[0]), q[p].real, q[p].imag) for p in names)), 'described targets', **TOL)
    ctx.trace()


# ------------------------------------------------------------------ sensitivity
def sens_cases(tier):
    n = len(OPT)
    for a in range(n):
        for b in range(n):
            for qi in range(3):
                for rev in (0, 1):
                    yield dict(ab=[a, b], q=qi, rev=rev)


def form(q, lam=LAM):
    """-log of the amplitude overlap of a beam with itself displaced by x and tilted by t where the parameter is q, as a quadratic form"""
    z, zr = q.real, q.imag
    w0 = np.sqrt(lam * zr / np.pi)
    k = 2 * np.pi / lam
    # at the waist: x0 = x - z t
    T = np.array([[1, -z], [0, 1]])
    return T.T.dot(np.diag([1 / (2 * w0**2), k**2 * w0**2 / 8])).dot(T)


def sens_run(case, ctx):
    a, b = [OPT[i] for i in case['ab']]
    q = QS[case['q']]
    C = A().ComplexBeamParam
    for lam in (LAM, .532e-6):
        c = C.from_Z_ZR(q.real, q.imag, wavelen=lam)
        F = form(q, lam)
        ctx.close(np.array(c.sensitivity_matrix), -F, 'sensitivity matrix', rtol=1e-9)
        s = np.array(c.sensitivity_matrix_sqrt)
        ctx.close(s.dot(s), F, 'square root of the sensitivity', rtol=1e-8)
        ctx.close(c.k, 2 * np.pi / lam, 'wave number')
    ch = place([a, b], gaps=(.13,))
    ch = [('st', -.05, ('nop',))] + ch + [('t', round(ch[-1][1] + .3, 6), ('target', q))]
    rev = bool(case['rev'])
    ref = layout_seq(ch, 1., rev=rev)
    root = build(ch, rev=rev)
    m = root.measurements
    qt = cq(root.t.beam_q)
    F = form(qt)
    cols = {}
    for i, kind in ((0, 'displacement'), (1, 'angle')):
        f = getattr(m, 'target_excursions_' + kind)
        vs = []
        objs = [root.e0, root.e1]
        for n in ('e0', 'e1'):
            s = ref.span(n)
            vs.append(ref.span('t')[2].dot(np.linalg.inv(s[2]))[:, i])
        V = np.array(vs).T
        want = V.T.dot(F).dot(V)
        for src in (None, 't'):
            kw = dict(beam_source=src) if src else {}
            got = np.array(f(objs, matrix_output=True, **kw))
            ctx.close(got, -want, lambda: 'reduction of the overlap by the {0} of two optics'.format(kind), rtol=1e-7, atol=1e-7 * abs(want).max())
            for j in (0, 1):
                for red in (.1, .02):
                    e = np.array(f([objs[j]], overlap_reduction=red, excursions_output=True, **kw), float)
                    ctx.close(e.ravel(), [np.sqrt(red / want[j, j])], lambda: 'excursion of one optic by {0}'.format(kind), rtol=1e-6)
            ctx.step(3)
    ctx.state(case)
    ctx.trace()
    ctx.cls('rev' if rev else 'straight')


# ------------------------------------------------------------------ profiles
def shape_cases(tier):
    Q = [.05 + .3j, -.2 + .15j, .4 + .6j, .3j, -1 + .2j]
    for i, j in itertools.product(range(len(Q)), repeat=2):
        yield dict(q=[[Q[i].real, Q[i].imag], [Q[j].real, Q[j].imag]])


def shape_run(case, ctx):
    from phasor.alm import beam_param as bp
    C = A().ComplexBeamParam
    q = [complex(*x) for x in case['q']]
    for lam in (LAM, .532e-6):
        c = [C.from_Z_ZR(x.real, x.imag, wavelen=lam) for x in q]
        wmax = max(float(x.W) for x in c)
        x = np.linspace(-6 * wmax, 6 * wmax, 6001)
        dx = x[1] - x[0]
        u = [bp.beam_shape_1D(x, b, 0, 0) for b in c]
        for v in u:
            ctx.close((abs(v)**2).sum() * dx, 1, 'power of a profile', rtol=1e-7)
        for b, v in zip(c, u):
            ctx.close((abs(v)**2 * x**2).sum() * dx, float(b.W)**2 / 4, 'width of a profile', rtol=1e-6)
        o = (u[0] * u[1].conj()).sum() * dx
        ctx.close(abs(cplx(c[0].overlap_with(c[1]))), abs(o)**2, 'overlap and integral of the profiles', rtol=1e-6, atol=1e-9)
        # small displacements and tilts reduce the overlap as the sensitivity says
        for d, t in ((.05, 0), (0, .05), (.03, .04), (-.03, .04)):
            w = float(c[0].W)
            xs, ts = d * w, t * lam / np.pi / float(c[0].W0)
            v = bp.beam_shape_1D(x, c[0], xs, ts)
            ctx.close((abs(v)**2).sum() * dx, 1, 'power of a displaced profile', rtol=1e-7)
            S = -np.array(c[0].sensitivity_matrix)
            lg = -np.log(abs((v * u[0].conj()).sum() * dx))
            y = [np.array([sx * xs, np.sin(ts)]) for sx in (1, -1)]
            ctx.require(any(abs(lg - z.dot(S).dot(z)) < 1e-6 + 1e-4 * lg for z in y), lambda: 'overlap of a displaced profile: {0} {1}'.format(lg, [z.dot(S).dot(z) for z in y]))
            ctx.step()
        g = np.linspace(-2 * wmax, 2 * wmax, 9)
        h = np.linspace(-wmax, wmax, 7)
        ctx.close(bp.beam_transverse(g, h, c[0], c[1], x_trans=1e-5, y_trans=2e-5, x_tilt=1e-3, y_tilt=-2e-3),
                  np.outer(bp.beam_shape_1D(h, c[1], 2e-5, -2e-3), bp.beam_shape_1D(g, c[0], 1e-5, 1e-3)), 'two dimensional profile', rtol=1e-9)
        ctx.close(bp.beam_transverse(g, h, c[0]), np.outer(bp.beam_shape_1D(h, c[0], 0, 0), bp.beam_shape_1D(g, c[0], 0, 0)), 'round profile', rtol=1e-9)
    ctx.state(case)
    ctx.trace()
    ctx.cls('profiles')


FAMILIES = [
    Family('targets', cases, run, 'all pairs of 7 optics with three beam targets in 3 orders, flat and in a nested (reversed) layout, both directions, with and without a principal target: all pairs of beams and places', cpu_s=60),
    Family('sensitivity', sens_cases, sens_run, 'all pairs of 7 optics x 3 beams x direction: the quadratic forms of displacements and angles', cpu_s=60),
    Family('profiles', shape_cases, shape_run, 'all pairs of 5 beams at two wavelengths: profiles, overlap integrals, displaced and tilted', cpu_s=60),
]
