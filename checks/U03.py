# -*- coding: utf-8 -*-
"""
Keyed vectors and matrices are dictionaries with an array view.
"""
import itertools
import numpy as np
from mc.core import Family, Violation

ASSUMPTIONS = [
    "oracle: a Python dict per object and numpy broadcasting; array[..., to, from] (vectors array[..., key]) in sorted key order",
    "array views are requested once all keys are known (they freeze the space); object-valued spaces are not covered",
    "stored values are arrays of at most two dimensions which broadcast",
]


def km():
    from phasor.math.key_matrix import keymatrix
    return keymatrix


FROM = ['a', 'b', 'c']
TO = ['x', 'y']


def val(code):
    return {
        's': 2.5,
        'z': 1 - 2j,
        '0': 0.,
        'v': np.array([1., -2., 3.]),
        'w': np.array([1j, 0., 2.]),
        '1': np.array([4.]),
        'm': np.array([[1.], [2j]]),
    }[code]


def refarray(d, rows, cols=None):
    vals = list(d.values())
    shape = np.broadcast(*[np.asarray(v) for v in vals]).shape if vals else ()
    arr = np.zeros(shape + ((len(rows),) if cols is None else (len(rows), len(cols))), dtype=complex)
    for k, v in d.items():
        if cols is None:
            arr[..., rows.index(k)] = v
        else:
            arr[..., rows.index(k[1]), cols.index(k[0])] = v
    return arr


def same_array(ctx, got, want, msg):
    # dimensions of length one in front or a smaller rank which broadcasts are the same thing
    try:
        ok = np.all(np.broadcast_to(np.asarray(got), np.broadcast(got, want).shape) == np.broadcast_to(want, np.broadcast(got, want).shape))
        ok = ok and np.asarray(got).shape[-1] == want.shape[-1] and np.asarray(got).size == want.size
    except ValueError:
        ok = False
    ctx.require(ok, lambda: '{0}: array {1!r}, expected {2!r}'.format(msg, got, want))


# ------------------------------------------------------------------ matrices
PAIRS = [('a', 'x'), ('b', 'y'), ('c', 'x')]


def mat_ops(tier):
    codes = ['s', 'v', 'm'] if tier == 'quick' else ['s', 'z', 'v', 'm', '1']
    for p in range(2):
        for c in codes:
            yield ['set', p, c]
            yield ['mul', p, c]
    yield ['null', 2, 's']
    yield ['null', -1, 's']
    yield ['pairs', 0, 'w']
    yield ['nested', 1, 'v']
    yield ['del', 0, None]
    yield ['del', 1, None]
    yield ['bad', 0, 's']
    yield ['add', 0, None]
    yield ['sub', 0, None]
    yield ['back', 0, None]


def mat_cases(tier):
    ops = list(mat_ops(tier))
    for first, second in itertools.product(ops, repeat=2):
        for read in (0, 1):
            yield dict(first=first, second=second, read=read, ops=ops)


def mat_apply(ctx, M, d, other, od, op):
    """returns the new (matrix, dict)"""
    K = km()
    kind, p, c = op
    pair = PAIRS[p]
    if kind == 'set':
        M[pair] = val(c)
        d[pair] = val(c)
    elif kind == 'mul':
        v = val(c)
        M.multiply_by(pair[0], pair[1], v)
        d[pair] = d[pair] * val(c) if pair in d else val(c)
        ctx.require(np.array_equal(v, val(c)), 'multiply_by changed its argument')
    elif kind == 'null':
        if p < 0:
            r = M.set_nullable('x', 'nokey', val(c))
            ctx.require(r is False, 'set_nullable of an unknown key answered {0}'.format(r))
        else:
            r = M.set_nullable(pair[1], pair[0], val(c))
            ctx.require(r is True, 'set_nullable of a known key answered {0}'.format(r))
            d[pair] = val(c)
    elif kind == 'pairs':
        M.fill_from_pair_map({PAIRS[0]: val(c), PAIRS[2]: val('s')})
        d[PAIRS[0]] = val(c)
        d[PAIRS[2]] = val('s')
    elif kind == 'nested':
        M.fill_from_nested_map({'a': {'x': val(c), 'y': val('s')}})
        d['a', 'x'] = val(c)
        d['a', 'y'] = val('s')
    elif kind == 'del':
        try:
            del M[pair]
            ok = True
        except KeyError:
            ok = False
        ctx.require(ok == (pair in d), 'deletion of {0} from {1}'.format(pair, sorted(d)))
        d.pop(pair, None)
    elif kind == 'bad':
        try:
            M['nokey', 'x'] = val(c)
        except RuntimeError:
            pass
        else:
            raise Violation('a key was added to a frozen space')
    elif kind in ('add', 'sub'):
        s = 1 if kind == 'add' else -1
        R = M + other if s > 0 else M - other
        before = dict(d)
        d = dict(d)
        for k, v in od.items():
            d[k] = d[k] + s * v if k in d else s * v
        judge(ctx, M, before, 'after {0} the left operand'.format(kind))
        judge(ctx, other, od, 'after {0} the right operand'.format(kind))
        M = R
    elif kind == 'back':
        arr = M.array
        M = M.backmap_array(arr)
        full = dict((k, np.asarray(v)) for k, v in d.items())
        d = dict((k, v) for k, v in full.items() if np.any(v != 0))
        same_array(ctx, M.array, refarray(full, TO, FROM) if np.any(refarray(full, TO, FROM)) else refarray({}, TO, FROM), 'array mapped back')
        # values are now broadcast to the whole shape
        shape = refarray(full, TO, FROM).shape[:-2]
        d = dict((k, np.broadcast_to(v, shape)) for k, v in d.items())
    ctx.step()
    return M, d


def judge(ctx, M, d, msg, array=True):
    ctx.require(len(M) == len(d), lambda: '{0}: has {1} entries, expected {2}'.format(msg, len(M), len(d)))
    ctx.require(set(M.keys()) == set(d), lambda: '{0}: has keys {1}, expected {2}'.format(msg, sorted(M.keys()), sorted(d)))
    for k, v in d.items():
        ctx.require(np.array_equal(M[k], v), lambda: '{0}: [{1}] is {2!r}, expected {3!r}'.format(msg, k, M[k], v))
        ctx.require(np.array_equal(M.get(k[0], k[1], None), v), lambda: '{0}: get({1})'.format(msg, k))
    ctx.require(M.get('a', 'nokey', 17) == 17, lambda: '{0}: default'.format(msg))
    for kf, kt, v in M:
        ctx.require(np.array_equal(d[kf, kt], v), lambda: '{0}: iteration'.format(msg))
    for k, v in M.items():
        ctx.require(np.array_equal(d[k], v), lambda: '{0}: items'.format(msg))
    if array:
        want = refarray(d, TO, FROM)
        same_array(ctx, M.array, want, msg)
        same_array(ctx, M.array, want, msg + ' (again)')
        if want.ndim == 2:
            same_array(ctx, np.asarray(M.mat), want, msg + ' mat')
            same_array(ctx, np.asarray(M.mat_T), want.T, msg + ' mat_T')
        wi = dict(((FROM.index(k[0]), TO.index(k[1])), v) for k, v in d.items())
        gi = M.idx_dict
        ctx.require(set(gi) == set(wi) and all(np.array_equal(gi[k], wi[k]) for k in wi), lambda: msg + ': idx_dict {0}'.format(gi))


def run_mat(case, ctx):
    K = km()
    for third in [None] + case['ops']:
        sf = K.KVSpace('from', keys=FROM, dtype=np.complex128, frozen=True)
        st = K.KVSpace('to', keys=TO, dtype=np.complex128, frozen=True)
        M = K.KeyMatrix(sf, st)
        d = {}
        O = K.KeyMatrix(sf, st)
        od = {('a', 'x'): 1.5, ('b', 'x'): np.array([1., 2., 3.]), ('c', 'y'): 2j}
        for k, v in od.items():
            O[k] = v
        path = [case['first'], case['second']] + ([third] if third is not None else [])
        if case['read']:
            judge(ctx, M, d, 'empty')
        for n, op in enumerate(path):
            M, d = mat_apply(ctx, M, d, O, od, op)
            if case['read'] or n == len(path) - 1:
                judge(ctx, M, d, 'after {0}'.format(path[:n + 1]))
        ctx.state(sorted((k, np.asarray(v).tolist()) for k, v in d.items()))
        ctx.trace()
        if M.vspace_from is sf:
            for kf in FROM:
                for kt in TO:
                    ctx.require(tuple(M.index_map(kf, kt)) == (FROM.index(kf), TO.index(kt)), 'index_map')
    ctx.cls('{0},{1}'.format(case['first'][0], case['second'][0]))


# ------------------------------------------------------------------ inverses
def inv_cases(tier):
    vals = [0., 1., -2., 1j] if tier == 'quick' else [0., 1., -2., 1j, .5, 3 - 1j]
    for n in range(len(vals)):
        yield dict(a=n, vals=[str(v) for v in vals])


def run_inv(case, ctx):
    """the array of the inverse matrix mapped back multiplies to one, keys and all"""
    K = km()
    vals = [complex(v) for v in case['vals']]
    for b, c, d in itertools.product(range(len(vals)), repeat=3):
        m = np.array([[vals[case['a']], vals[b]], [vals[c], vals[d]]])
        sf = K.KVSpace('from', keys=['q', 'p'], dtype=np.complex128, frozen=True)
        st = K.KVSpace('to', keys=['y', 'x'], dtype=np.complex128, frozen=True)
        M = K.KeyMatrix(sf, st)
        for i, kt in enumerate(['x', 'y']):
            for j, kf in enumerate(['p', 'q']):
                if m[i, j]:
                    M[kf, kt] = m[i, j]
        same_array(ctx, M.array, m, 'array')
        ctx.step()
        R = M.backmap_array(M.array)
        ctx.require(set(R.keys()) == set(M.keys()) and all(R[k] == M[k] for k in M.keys()), lambda: 'backmap_array of {0} gives {1}'.format(m, dict(R.items())))
        if abs(np.linalg.det(m)) < 1e-6:
            continue
        inv = np.linalg.inv(M.array)
        for stack in (0, 1):
            arr = inv if not stack else np.array([inv, 2 * inv, 0 * inv])
            I = M.backmap_array_inv(arr)
            ctx.require(I.vspace_from is st and I.vspace_to is sf, 'spaces of the inverse')
            for kf in 'xy':
                for kt in 'pq':
                    w = arr[..., 'pq'.index(kt), 'xy'.index(kf)]
                    ctx.require(np.array_equal(I.get(kf, kt, np.zeros_like(w)), w), lambda: 'backmap_array_inv [{0},{1}] is {2}, expected {3}'.format(kf, kt, I.get(kf, kt, 0), w))
            same_array(ctx, I.array, arr, 'array of the inverse')
            # composition through the keys
            for k1 in 'pq':
                for k2 in 'pq':
                    tot = sum(M.get(k1, k, 0) * I.get(k, k2, 0) for k in 'xy')
                    one = np.array([1., 2., 0.]) if stack else 1.
                    ctx.close(tot, (k1 == k2) * one, 'matrix times inverse', rtol=1e-9, atol=1e-9)
        ctx.state(m.tolist())
        ctx.trace()
    E = K.key_matrix_eye(K.KVSpace('e', keys=['p', 'q', 'r'], frozen=True))
    same_array(ctx, E.array, np.eye(3), 'eye')
    ctx.cls('inverse')


# ------------------------------------------------------------------ vectors
def vec_ops(tier):
    for k in 'ab':
        for c in ['s', 'v', '1', 'm'] + (['z', 'w'] if tier != 'quick' else []):
            yield ['set', k, c]
            yield ['add', k, c]
        yield ['del', k, None]
    yield ['back', 'a', None]
    yield ['bad', 'a', 's']


def vec_cases(tier):
    ops = list(vec_ops(tier))
    for a, b in itertools.product(ops, repeat=2):
        for read in (0, 1):
            yield dict(first=a, second=b, read=read, ops=ops)


def run_vec(case, ctx):
    K = km()
    for third in [None] + case['ops']:
        sp = K.KVSpace('from', keys=FROM, dtype=np.complex128, frozen=True)
        V = K.KeyVector(sp)
        d = {}
        path = [case['first'], case['second']] + ([third] if third is not None else [])
        for n, (kind, k, c) in enumerate(path):
            ctx.step()
            if kind == 'set':
                V[k] = val(c)
                d[k] = val(c)
            elif kind == 'add':
                v = val(c)
                keep = V.get(k, 0.)
                copy = np.array(keep)
                V.add_by(k, v)
                d[k] = d[k] + val(c) if k in d else val(c)
                ctx.require(np.array_equal(v, val(c)), 'add_by changed its argument')
                ctx.require(np.array_equal(keep, copy), lambda: 'add_by changed the value given to it before: {0} became {1}'.format(copy, keep))
            elif kind == 'del':
                try:
                    del V[k]
                    ok = True
                except KeyError:
                    ok = False
                ctx.require(ok == (k in d), 'deletion')
                d.pop(k, None)
            elif kind == 'bad':
                try:
                    V['nokey'] = 1.
                except RuntimeError:
                    pass
                else:
                    raise Violation('a key was added to a frozen space')
            elif kind == 'back':
                full = refarray(d, FROM)
                V = V.backmap_vector(V.array)
                d = dict((kk, full[..., FROM.index(kk)]) for kk in d if np.any(np.asarray(d[kk]) != 0))
            if case['read'] or n == len(path) - 1:
                msg = 'after {0}'.format(path[:n + 1])
                ctx.require(len(V) == len(d) and set(V.keys()) == set(d) and set(V.iterkeys()) == set(d), lambda: '{0}: keys {1}, expected {2}'.format(msg, list(V.keys()), list(d)))
                for kk, v in V:
                    ctx.require(np.array_equal(v, d[kk]) and np.array_equal(V[kk], d[kk]) and np.array_equal(V.get(kk, None), d[kk]),
                                lambda: '{0}: [{1}] is {2!r}, expected {3!r}'.format(msg, kk, v, d[kk]))
                want = refarray(d, FROM)
                same_array(ctx, V.array, want, msg)
                if want.ndim == 1:
                    same_array(ctx, np.asarray(V.row), want.reshape(1, -1), msg + ' row')
                    same_array(ctx, np.asarray(V.col), want.reshape(-1, 1), msg + ' col')
        ctx.state(sorted((k, np.asarray(v).tolist()) for k, v in d.items()))
        ctx.trace()
    ctx.cls('{0},{1}'.format(case['first'][0], case['second'][0]))


# ------------------------------------------------------------------ spaces
def spaces(tier):
    univ = ['a', 'b', 'c', 'd']
    n = 3 if tier == 'quick' else 4
    ops = ['+' + k for k in univ] + ['freeze', 'iter', 'copy', 'inverse', 'map', 'idx']
    for prog in itertools.product(ops, repeat=n):
        for contra in (False, True):
            yield dict(prog=list(prog), contra=contra)


def run_space(case, ctx):
    K = km()
    s = K.KVSpace('n', keys=['b'], dtype=np.complex128, contravariant=case['contra'])
    keys = {'b'}
    frozen = False
    contra = case['contra']

    def judge_space(s, keys, frozen, contra, msg):
        ctx.require(s.frozen_is() == frozen, lambda: msg + ': frozen is {0}'.format(s.frozen_is()))
        ctx.require(len(s) == len(keys) and all((k in s) == (k in keys) for k in 'abcdz'), lambda: msg + ': keys')
        ctx.require(s.contravariant == contra and s.name == 'n' and s.dtype == np.complex128, lambda: msg + ': attributes {0} {1} {2}'.format(s.contravariant, s.name, s.dtype))
    for n, op in enumerate(case['prog']):
        msg = 'after {0}'.format(case['prog'][:n + 1])
        ctx.step()
        if op[0] == '+':
            try:
                s.keys_add(op[1])
                raised = False
            except RuntimeError:
                raised = True
            ctx.require(raised == (frozen and op[1] not in keys), lambda: msg + ': adding a key raised: {0}'.format(raised))
            if not raised:
                keys = keys | {op[1]}
        elif op == 'freeze':
            s.freeze()
            frozen = True
        elif op == 'iter':
            ctx.require(sorted(s.keys_iter()) == sorted(keys), msg)
            frozen = True
        elif op == 'copy':
            c = s.copy()
            judge_space(c, keys, False, contra, msg + ' (copy)')
            c.keys_add('z')
            ctx.require('z' not in s, 'adding to a copy')
        elif op == 'inverse':
            i = s.inverse()
            frozen = True
            judge_space(i, keys, True, not contra, msg + ' (inverse)')
            ctx.require(i.inverse() is s and s.inverse() is i, 'inverse of the inverse')
        elif op == 'map':
            for n, k in enumerate(sorted(keys)):
                ctx.require(s.key_map(k) == n, 'key_map')
            frozen = True
        elif op == 'idx':
            for n, k in enumerate(sorted(keys)):
                ctx.require(s.idx_map(n) == k, 'idx_map')
            ctx.require(list(s.idx_map_full()) == sorted(keys), 'idx_map_full')
            frozen = True
        judge_space(s, keys, frozen, contra, msg)
        ctx.state(sorted(keys), frozen, contra)
    ctx.trace()
    ctx.cls('space frozen={0}'.format(frozen))


FAMILIES = [
    Family('matrices', mat_cases, run_mat, 'every history of up to 3 operations (setting, multiplying, filling, deleting, adding matrices, mapping arrays back; scalar and array values), read at the end and after each operation'),
    Family('vectors', vec_cases, run_vec, 'every history of up to 3 operations, read at the end and after each operation'),
    Family('inverses', inv_cases, run_inv, 'all 2x2 matrices over 4 (6) values, scalar and stacked, through the inverse and back to keys'),
    Family('spaces', spaces, run_space, 'every history of 3 (4) operations of a key space'),
]
