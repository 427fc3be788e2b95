# -*- coding: utf-8 -*-
"""
The keys which name the fields (dictionary keys, frequency keys) are dictionaries and integer vectors.
"""
import copy
import itertools
import pickle
from mc.core import Family, Violation

ASSUMPTIONS = [
    "oracle: Python dicts and integer vectors over the same universe",
    "the order of two DictKeys is only required to be consistent with hash, equality and itself (see the known finding)",
]


def K():
    from phasor.base import dictionary_keys
    return dictionary_keys


def universe(tier):
    names = ['p', 'q', 'r']
    vals = [0, 1] if tier == 'quick' else [0, 1, 2]
    for combo in itertools.product([None] + vals, repeat=len(names)):
        yield dict((n, v) for n, v in zip(names, combo) if v is not None)


def dk_cases(tier):
    U = list(universe(tier))
    for i, d in enumerate(U):
        yield dict(i=i, tier=tier)


def build(d, how):
    D = K().DictKey
    if how == 0:
        return D(**d)
    if how == 1:
        return D(d)
    if how == 2:
        return D(dict(reversed(list(d.items()))))
    first = dict(list(d.items())[:1])
    rest = dict(list(d.items())[1:])
    return D(first) | D(**rest)


def asdict(k):
    return dict((n, k[n]) for n in k)


def run_dk(case, ctx):
    U = list(universe(case['tier']))
    d = U[case['i']]
    D = K().DictKey
    for ha in range(4):
        a = build(d, ha)
        ctx.require(asdict(a) == d and len(a) == len(d) and sorted(a.keys()) == sorted(d), lambda: 'built {0} from {1}'.format(a, d))
        ctx.require(sorted(a.iteritems()) == sorted(d.items()), 'iteritems')
        ctx.require(copy.copy(a) == a and copy.deepcopy(a) == a, 'copies')
        for n in 'pqrz':
            ctx.require(a.get(n, 'no') == d.get(n, 'no') and (n in a) == (n in d), lambda: 'get {0}'.format(n))
            for v in (0, 1, 2):
                ctx.require(a.kv_contains(n, v) == (n in d and d[n] == v), lambda: '{0}.kv_contains({1}, {2})'.format(a, n, v))
            try:
                r = a[n]
                ok = True
            except KeyError:
                ok = False
            ctx.require(ok == (n in d), 'subscript')
        src = dict(d)
        b = D(src)
        src['p'] = 99
        ctx.require(asdict(b) == d, 'a key follows the dictionary it was built from')
        for sub in itertools.chain.from_iterable(itertools.combinations('pqr', n) for n in range(3)):
            rest = dict((n, v) for n, v in d.items() if n not in sub)
            ctx.require(asdict(a.purge_keys(*sub)) == rest, 'purge_keys')
            try:
                r = asdict(a.without_keys(*sub))
                ok = r == rest
            except KeyError:
                ok = not all(n in d for n in sub)
            ctx.require(ok, lambda: '{0}.without_keys{1}'.format(a, sub))
        ctx.step(20)
        for j, e in enumerate(U):
            for hb in (0, 1, 3):
                h0 = hash(a)
                b = build(e, hb)
                msg = lambda: '{0} and {1}'.format(d, e)
                ctx.require((a == b) == (d == e) and (a != b) == (d != e), lambda: 'equality of {0} and {1}'.format(d, e))
                if d == e:
                    ctx.require(hash(a) == hash(b), lambda: 'hashes of {0}'.format(d))
                    ctx.require({a: 1}.get(b) == 1 and len({a, b}) == 1, msg)
                ctx.require(asdict(a | b) == dict(d, **e), lambda: 'union of {0} and {1}'.format(d, e))
                ctx.require(asdict(a & b) == dict((n, v) for n, v in d.items() if n in e and e[n] == v), lambda: 'common part of {0} and {1}: {2}'.format(d, e, a & b))
                has = all(n in d and d[n] == v for n, v in e.items())
                ctx.require(a.contains(b) == has and a.subkey_has(b) == has, lambda: '{0} contains {1}'.format(d, e))
                if has:
                    ctx.require(asdict(a - b) == dict((n, v) for n, v in d.items() if n not in e), lambda: '{0} without {1}'.format(d, e))
                    ctx.require((a - b) | b == a, 'difference and union')
                else:
                    try:
                        a - b
                    except (AssertionError, KeyError):
                        pass
                    else:
                        raise Violation('{0} - {1} should not be possible'.format(d, e))
                ctx.require(asdict(a.copy_update(**e)) == dict(d, **e) and asdict(a.replace_keys(e)) == dict(d, **e) and asdict(a.replace_keys(e, {'p': 7})) == dict(dict(d, **e), p=7),
                            lambda: 'update of {0} with {1}'.format(d, e))
                ctx.require(asdict(a) == d and asdict(b) == e and hash(a) == h0, 'an operation changed its operands')
                ctx.step(12)
                ctx.state(sorted(d.items()), sorted(e.items()))
                ctx.trace()
        for other in (None, 5, 'p', d, ()):
            ctx.require(not (a == other) and a != other, lambda: '{0} equal to {1!r}'.format(a, other))
    ctx.cls(len(d))


def order_cases(tier):
    U = list(universe('quick' if tier == 'quick' else tier))
    for i in range(len(U)):
        yield dict(i=i, tier=tier)


def run_order(case, ctx):
    """< is irreflexive, asymmetric, transitive, and incomparability is transitive; distinct keys are ordered (finding)"""
    U = [build(d, 0) for d in universe(case['tier'])]
    a = U[case['i']]
    ctx.require(not a < a, 'irreflexive')
    bad = None
    for b in U:
        if a < b:
            ctx.require(not b < a, lambda: '{0} < {1} both ways'.format(a, b))
        elif a != b and not b < a:
            bad = (a, b)
        for c in U:
            if a < b and b < c:
                ctx.require(a < c, lambda: 'order of {0}, {1}, {2}'.format(a, b, c))
            if not a < b and not b < a and not b < c and not c < b:
                ctx.require(not a < c and not c < a, lambda: 'equivalence of {0}, {1}, {2}'.format(a, b, c))
            ctx.step()
    ctx.state(case['i'])
    ctx.trace()
    ctx.cls('order')
    ctx.require(bad is None, lambda: 'neither of the distinct keys {0} is before the other'.format(bad), sig='dictkey-order')


# ------------------------------------------------------------------ frequency keys
def freqs():
    from phasor import system, base
    s = system.BGSystem()
    s.own.f0 = base.Frequency(F_Hz=10.)
    s.own.f1 = base.Frequency(F_kHz=1.5)
    s.own.f2 = base.Frequency(F_MHz=.25)
    return s, [s.f0, s.f1, s.f2], [10., 1500., 250000.]


def fk_cases(tier):
    R = [-1, 0, 1] if tier == 'quick' else [-2, -1, 0, 1, 3]
    for v in itertools.product(R, repeat=3):
        yield dict(v=list(v), R=R)


def run_fk(case, ctx):
    F = K().FrequencyKey
    s, fs, hz = freqs()

    def forms(v):
        """all the ways to write the vector v"""
        yield F(dict((f, n) for f, n in zip(fs, v) if n))
        yield F(dict((f, n) for f, n in zip(fs, v)))
        yield F(dict((f, n) for f, n in reversed(list(zip(fs, v))) if n))
        tot = F({})
        for f, n in zip(fs, v):
            tot = tot + n * F({f: 1})
        yield tot
        yield -F(dict((f, -n) for f, n in zip(fs, v)))
        yield F(dict((f, n + 1) for f, n in zip(fs, v))) - F(dict((f, 1) for f in fs))

    def vec(k):
        return [k.F_dict.get(f, 0) for f in fs]
    v = case['v']
    A = list(forms(v))
    canon = A[0]
    for a in A:
        ctx.require(vec(a) == v, lambda: 'form of {0}: {1}'.format(v, a))
        ctx.require(a == canon and not (a != canon) and hash(a) == hash(canon) and a.hash_tuple() == canon.hash_tuple(), lambda: 'two forms of {0} differ: {1!r} {2!r}'.format(v, a.F_dict, canon.F_dict))
        ctx.require(a.DC_is() == (not any(v)), lambda: 'DC_is of {0}'.format(v))
        ctx.close(a.frequency(), sum(n * h for n, h in zip(v, hz)), 'frequency of {0}'.format(v), rtol=1e-12)
        ctx.require(repr(a) == repr(canon), 'name')
        ctx.step(5)
    src = dict((f, n) for f, n in zip(fs, v) if n)
    a = F(src)
    src[fs[0]] = 17
    ctx.require(vec(a) == v, 'a frequency key follows the dictionary it was built from')
    for n in (-3, -1, 0, 1, 2):
        ctx.require(vec(n * canon) == [n * x for x in v] and (n != 0 or (n * canon == F({}) and (n * canon).DC_is())), lambda: '{0} times {1}'.format(n, v))
    for n in (-2, -1, 0, 1, 3):
        for m in (-3, -1, 1, 2):
            k = n * (m * canon)
            ctx.require(vec(k) == [n * m * x for x in v] and vec(-k) == [-n * m * x for x in v], lambda: '{0} times {1} times {2}: {3!r}'.format(n, m, v, k.F_dict))
            ctx.require(vec(k + k) == [2 * n * m * x for x in v] and (k - k).DC_is(), lambda: 'sum of {0!r} with itself'.format(k.F_dict))
            ctx.close(k.frequency(), n * m * sum(x * h for x, h in zip(v, hz)), 'frequency of {0} times {1}'.format(n * m, v), rtol=1e-12)
            ctx.step(3)
    for w in itertools.product(case['R'], repeat=3):
        for b in forms(w):
            for a in (A[0], A[1], A[3]):
                h = hash(a), hash(b)
                for r, want in ((a + b, [x + y for x, y in zip(v, w)]), (a - b, [x - y for x, y in zip(v, w)])):
                    ctx.require(vec(r) == want and r == F(dict((f, n) for f, n in zip(fs, want) if n)), lambda: 'sum or difference of {0} and {1}: {2}'.format(v, w, r))
                    ctx.require(r.DC_is() == (not any(want)), lambda: 'DC_is of {0}'.format(want))
                ctx.require((a == b) == (list(w) == list(v)), lambda: 'equality of {0} and {1}'.format(v, w))
                ctx.require(vec(a) == v and vec(b) == list(w) and h == (hash(a), hash(b)), 'an operation changed its operands')
                ctx.step(4)
        ctx.state(v, w)
        ctx.trace()
    for other in (None, 0, {}, 'x'):
        ctx.require(not canon == other, 'equality with another type')
    # arrays of frequencies
    import numpy as np
    from phasor import base
    s.own.g0 = base.Frequency(F_Hz=np.array([1., 2.]), F_center_Hz=1.5)
    s.own.g1 = base.Frequency(F_Hz=np.array([[10.], [20.], [30.]]), F_center_Hz=20.)
    gs = [s.g0, s.f1, s.g1]
    for order in itertools.permutations(range(3)):
        got = F(dict((gs[i], v[i]) for i in order)).frequency()
        want = v[0] * np.array([1., 2.]) + v[1] * 1500. + v[2] * np.array([[10.], [20.], [30.]])
        ctx.require(np.allclose(np.broadcast_to(got, (3, 2)), want, rtol=1e-12), lambda: 'frequency of {0} with arrays: {1}'.format(v, got))
        ctx.step()
    ctx.require(np.all(s.g0.F_Hz.val == np.array([1., 2.])), 'a frequency changed')
    # as values of dictionary keys
    D = K().DictKey
    for a in A:
        ctx.require(D({'fkey': a}) == D({'fkey': canon}) and hash(D({'fkey': a})) == hash(D({'fkey': canon})), 'frequency keys in a dictionary key')
    ctx.cls(sum(1 for x in v if x))


FAMILIES = [
    Family('dictkeys', dk_cases, run_dk, 'all pairs of dictionaries over 3 names and 2 (3) values, built in 4 ways: equality, hash, union, intersection, difference, containment, updates'),
    Family('order', order_cases, run_order, 'all triples of the same keys'),
    Family('frequencies', fk_cases, run_fk, 'all pairs of vectors of 3 frequencies with orders in -1..1 (-2..3), in 6 ways of writing them: sums, differences, multiples, hashes, DC'),
]
