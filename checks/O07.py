# -*- coding: utf-8 -*-
"""
Polarization around closed paths of mirrors.
"""
import itertools
import numpy as np
from mc.core import Family

ASSUMPTIONS = [
    "oracle: Householder reflections in three dimensions multiplied in the order of the mirrors, in the basis of the plane of the last and first beam; the solid angle of the beam directions",
    "paths with straight or retroreflecting corners (no mirror, or no plane of incidence) are left out",
]


def unit(v):
    return v / np.sqrt(np.dot(v, v))


def directions(P):
    n = len(P)
    return [unit(P[(i + 1) % n] - P[i]) for i in range(n)]


def proper(P):
    v = directions(P)
    return all(np.linalg.norm(np.cross(v[i], v[i - 1])) > 1e-6 for i in range(len(v)))


def oracle(P):
    v = directions(P)
    n = len(v)
    p = unit(v[-1] - v[0] * np.dot(v[-1], v[0]))
    s = np.cross(p, v[0])
    M = np.eye(3)
    # the beam leaves the first point, is reflected by the second and so on, at last by the first
    for i in list(range(1, n)) + [0]:
        N = unit(v[i] - v[i - 1])
        M = (np.eye(3) - 2 * np.outer(N, N)).dot(M)
    assert np.allclose(M.dot(v[0]), v[0])
    return np.array([[b.dot(M).dot(a) for b in (p, s)] for a in (p, s)])


def solid_angle(u):
    """of the spherical polygon of the directions (modulo 4 pi), by triangles from the first"""
    tot = 0.
    for i in range(1, len(u) - 1):
        a, b, c = u[0], u[i], u[i + 1]
        tot += 2 * np.arctan2(np.dot(a, np.cross(b, c)), 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))
    return tot


def rotation(k):
    a, b, c = .3 + k, 1.1 * k + .2, -.7 + k * k
    X = np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
    Z = np.array([[np.cos(b), -np.sin(b), 0], [np.sin(b), np.cos(b), 0], [0, 0, 1]])
    Y = np.array([[np.cos(c), 0, -np.sin(c)], [0, 1, 0], [np.sin(c), 0, np.cos(c)]])
    return X.dot(Z).dot(Y)


CUBE = [np.array(p, float) for p in itertools.product((0, 1), repeat=3)]
SHEAR = [np.array(p) for p in ((0., 0., .2), (1., .1, -.3), (1.2, 1., .4), (-.1, .9, -.2), (.5, .4, 1.7), (2.1, -.6, .3))]
FLAT = [np.array(p) for p in ((0., 0., 0.), (1., .1, 0.), (1.2, 1., 0.), (-.1, .9, 0.), (.5, .4, 0.))]
SETS = dict(cube=CUBE, shear=SHEAR, flat=FLAT)


def cases(tier):
    for name, ns in (('cube', (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6)), ('shear', (3, 4, 5, 6)), ('flat', (3, 4, 5))):
        for n in ns:
            for a, b in itertools.permutations(range(len(SETS[name])), 2):
                yield dict(points=name, n=n, first=[a, b])


def run(case, ctx):
    from phasor.optics.tools.polizarization_circulation import polarization_circulation
    pts = SETS[case['points']]
    rest = [i for i in range(len(pts)) if i not in case['first']]
    for tail in itertools.permutations(rest, case['n'] - 2):
        idx = list(case['first']) + list(tail)
        P = [pts[i] for i in idx]
        if not proper(P):
            continue
        keep = [p.copy() for p in P]
        J = np.asarray(polarization_circulation(P))
        ctx.require(all((a == b).all() for a, b in zip(P, keep)), 'the points were modified')
        want = oracle(P)
        ctx.close(J, want, lambda: 'polarizations around the path {0}'.format([list(p) for p in P]), rtol=1e-9, atol=1e-9)
        ctx.close(J.dot(J.T), np.eye(2), 'orthogonality', rtol=1e-9, atol=1e-9)
        ctx.close(np.linalg.det(J), (-1.)**len(P), 'determinant', rtol=1e-9)
        if case['points'] == 'flat':
            ctx.close([J[0, 1], J[1, 0]], [0, 0], 'flat paths do not rotate polarization', atol=1e-9)
        if len(P) % 2 == 0:
            u = [(-1)**i * v for i, v in enumerate(directions(P))]
            if all(np.linalg.norm(u[i] + u[0]) > 1e-3 for i in range(len(u))):
                O = solid_angle(u)
                ctx.close(abs(np.trace(J)) / 2, abs(np.cos(O)), lambda: 'geometric phase of the path {0}'.format([list(p) for p in P]), atol=1e-7)
        for k, form in ((0, list), (1, tuple)):
            Q = [form(rotation(k).dot(p) * (1e-3, 40.)[k] + np.array([7., -2., .5]) * k) for p in P]
            ctx.close(polarization_circulation(form(Q)), want, lambda: 'polarizations around the turned and moved path {0}'.format([list(p) for p in P]), rtol=1e-7, atol=1e-7)
        ctx.step(3)
        ctx.state(case['points'], idx)
    ctx.trace()
    ctx.cls('{0} mirrors'.format(case['n']))


FAMILIES = [
    Family('paths', cases, run, 'all closed paths of 3..5 (6) corners of a cube, 3..6 of 6 sheared points and 3..5 of 5 points of a plane', chunk=4),
]
