# -*- coding: utf-8 -*-
"""
Regenerated systems, and systems with parameters overridden through the configuration tree.
"""
import itertools
import numpy as np
from mc.core import Family, Violation
from mc import zoo

ASSUMPTIONS = [
    "oracle: the same system built directly with the same parameters",
]

# parameters which live in the configuration tree: zoo -> param -> (path, value key)
TREE = dict(
    fp=dict(T1=('itm', 'T_hr'), T2=('etm', 'T_hr'), d=('s1', 'L_detune', 'val'), L=('s1', 'length', 'val'), P=('laser', 'power', 'val')),
    mich=dict(T=('bs', 'T_hr'), loss=None, d=('sX', 'L_detune', 'val')),
    pdh=dict(T1=('itm', 'T_hr'), d=('s1', 'L_detune', 'val')),
    optomech=dict(d=('s1', 'L_detune', 'val')),
    hom=dict(d=('sX', 'L_detune', 'val')),
    pol=dict(deg=('rot', 'rotate', 'val')),
    loop=dict(g=('plant', 'gain')),
)


def guard(case, f):
    """the one known failure is told apart by its input"""
    try:
        return f()
    except AssertionError as E:
        if case['zoo'] == 'shg':
            raise Violation("regenerated system with a HarmonicMirror: {0!r}".format(E), sig='regenerate-harmonic-selector')
        raise


def wrap(z, sys):
    b = zoo.Built.__new__(zoo.Built)
    b.zoo = z
    b.sys = sys
    return b


def run_generations(case, ctx):
    z, want = zoo.reference(case['zoo'])
    b = zoo.Built(z)
    gens = [b]
    for use in case['use']:
        if use == 'all':
            guard(case, gens[-1].all)
        elif use == 'one':
            guard(case, lambda: gens[-1].get(z.outputs()[-1]))
        gens.append(wrap(z, gens[-1].sys.regenerate()))
        ctx.step()
    # the last first: earlier ones must not have been disturbed
    for i in reversed(range(len(gens))):
        got = guard(case, gens[i].all)
        zoo.same(ctx, got, want, lambda: "generation {0} of system {1}, used {2} before being regenerated".format(i, case['zoo'], case['use']))
    ctx.state(case)
    ctx.trace()
    ctx.cls('generations {0}'.format(len(gens)))


def cases_generations(tier):
    uses = ['none', 'one', 'all']
    for zn in sorted(zoo.ALL):
        for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
            if tier == 'quick' and n == 2 and zoo.ALL[zn]().slow:
                combos = [('all', 'all'), ('none', 'none')]
            elif tier == 'quick' and n == 2:
                combos = [('none', 'none'), ('none', 'all'), ('one', 'none'), ('all', 'one'), ('all', 'all')]
            else:
                combos = itertools.product(uses, repeat=n)
            for u in combos:
                yield dict(zoo=zn, use=list(u))


def run_override(case, ctx):
    z, base = zoo.reference(case['zoo'])
    par = {}
    for p in case['params']:
        v = z.params[p]
        par[p] = v * case['factor']
    want = zoo.Built(z, params=par).all()
    b = zoo.Built(z)
    if case['mode'] == 'shadow solved':
        b.all()
    if case['mode'] == 'argument':
        import declarative
        tree = declarative.DeepBunch()
    else:
        tree = b.sys.ctree_shadow()
    for p in case['params']:
        path = TREE[case['zoo']][p]
        t = tree
        for k in path[:-1]:
            t = t[k]
        t[path[-1]] = par[p]
    if case['mode'] == 'argument':
        b2 = zoo.Built(z, kw=dict(ctree=tree))
    else:
        b2 = wrap(z, b.sys.regenerate(ctree=tree))
    zoo.same(ctx, b2.all(), want, lambda: "system {0} with {1} overridden ({2})".format(case['zoo'], par, case['mode']))
    zoo.same(ctx, b.all(), base, lambda: "original system {0} after {1} were overridden ({2})".format(case['zoo'], par, case['mode']))
    if case['mode'] != 'argument':
        # overrides are for that generation only when a new tree of changes is given
        b3 = wrap(z, b2.sys.regenerate())
        zoo.same(ctx, b3.all(), want, lambda: "system {0} regenerated after {1} were overridden ({2})".format(case['zoo'], par, case['mode']))
    ctx.step(2)
    ctx.state(case)
    ctx.trace()
    ctx.cls(case['mode'])


def cases_override(tier):
    for zn in sorted(TREE):
        ps = [p for p in sorted(TREE[zn]) if TREE[zn][p]]
        for n in range(1, len(ps) + 1):
            for sub in itertools.combinations(ps, n):
                for mode in ('shadow', 'shadow solved', 'argument'):
                    for factor in ((1.3,) if tier == 'quick' else (1.3, .5, 0.)):
                        yield dict(zoo=zn, params=list(sub), factor=factor, mode=mode)


def run_continue(case, ctx):
    """a half written system is regenerated, then both are completed"""
    z, want = zoo.reference(case['zoo'])
    n = zoo.n_ops(z)
    ops = list(range(n))
    k = case['cut']
    b = zoo.Built(z, op_order=ops[:k])
    b2 = wrap(z, b.sys.regenerate())

    def finish(bb):
        sys = bb.sys
        nb = len(z.bonds)
        for j in ops[k:]:
            if j < nb:
                x, y = z.bonds[j]
                sys.bond(zoo.port_get(sys, x), zoo.port_get(sys, y))
            else:
                name, f, outs = z.reads[j - nb]
                sys.insert(f(sys, z.params, lambda path: zoo.port_get(sys, path)), name)
    order = [b, b2] if case['first'] == 0 else [b2, b]
    for bb in order:
        finish(bb)
        ctx.step(n - k)
    for bb in order:
        zoo.same(ctx, guard(case, bb.all), want, lambda: "system {0} completed after being regenerated with {1} of {2} bonds and readouts".format(case['zoo'], k, n))
    ctx.state(case)
    ctx.trace()
    ctx.cls('completed later')


def cases_continue(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        n = zoo.n_ops(z)
        for k in range(0, n + 1):
            if tier == 'quick' and (z.slow or n > 9) and k % 3 != 1:
                continue
            for first in ((k % 2,) if tier == 'quick' else (0, 1)):
                yield dict(zoo=zn, cut=k, first=first)


SETTINGS = dict(sided_spectra=(2, 1), F_AC=(17., np.array([3., 40.])), include_johnson_noise=(False, True))


def run_settings(case, ctx):
    """settings of the system changed by regenerating, and changed back"""
    z, base = zoo.reference(case['zoo'])

    def regen(bb, i):
        if case['mode'] == 'arguments':
            return wrap(z, bb.sys.regenerate(**dict((k, SETTINGS[k][i]) for k in case['set'])))
        t = bb.sys.ctree_shadow()
        for k in case['set']:
            if k == 'F_AC':
                t['environment']['F_AC']['frequency']['val'] = SETTINGS[k][i]
            else:
                t[k] = SETTINGS[k][i]
        return wrap(z, bb.sys.regenerate(ctree=t))
    kw = dict((k, SETTINGS[k][0]) for k in case['set'])
    F = kw.pop('F_AC', None)
    want = zoo.Built(z, F_AC=F, kw=kw).all()
    b = zoo.Built(z)
    if case['used']:
        b.all()
    b2 = regen(b, 0)
    if case['used']:
        b2.all()
    b3 = regen(b2, 1)
    b4 = wrap(z, b2.sys.regenerate())
    zoo.same(ctx, b3.all(), base, lambda: "system {0} with {1} changed and changed back".format(case['zoo'], case))
    zoo.same(ctx, b4.all(), want, lambda: "system {0} with {1} changed, regenerated".format(case['zoo'], case))
    zoo.same(ctx, b2.all(), want, lambda: "system {0} with {1} changed".format(case['zoo'], case))
    zoo.same(ctx, b.all(), base, lambda: "original of system {0} with {1} changed".format(case['zoo'], case))
    ctx.step(4)
    ctx.state(case)
    ctx.trace()
    ctx.cls('settings')


def cases_settings(tier):
    for zn in sorted(zoo.ALL):
        z = zoo.ALL[zn]()
        if zn == 'shg' or (tier == 'quick' and z.slow):
            continue
        for n in (1, 2, 3):
            for sub in itertools.combinations(sorted(SETTINGS), n):
                for mode in ('arguments', 'tree'):
                    for used in (0, 1):
                        if tier == 'quick' and (n == 2 or used != (n == 1)):
                            continue
                        yield dict(zoo=zn, set=list(sub), mode=mode, used=used)


FAMILIES = [
    Family('generations', cases_generations, run_generations, "14 systems regenerated up to 2 (3) times, each generation unused, queried once, or fully used before; all generations compared, newest first"),
    Family('override', cases_override, run_override, "all subsets of the tree parameters of 7 systems overridden, by argument or by regenerating with a shadow of the tree"),
    Family('continue', cases_continue, run_continue, "14 systems regenerated at every (every third, for the larger) point of their construction, both then completed"),
    Family('settings', cases_settings, run_settings, "single settings and all together (thorough: all subsets) of the settings of a system (sidedness of spectra, frequencies, thermal noise) changed by regenerating with arguments or a shadow of the tree, changed back, and regenerated once more, before and after use"),
]
