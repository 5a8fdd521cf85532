"""Minimal realization: same transfer matrix, exact minimal order."""
import itertools

import numpy as np

from .. import env
from ..core import call, Err
from .. import alpha
from ..ref import (Tf, Ss, same_values, obj_values, model_state, frank, fmat, fmul, trim, pmul,
                   is_gain, pgcd, F, fl)
from harold import State, Transfer, minimal_realization

D3 = (-1, 0, 1)
REAL = {'-1': -1, '-2': -2, '3': 3, '0': 0, 'h': 0.5}
PAIR = {'c': (-1, 2), 'i': (0, 1)}
# multisets of modes; a Jordan block is written with a J
SETS = ['-1', 'c', '-1 -2', '-1 -1', '-1 0', '-1 c', 'J-1', 'J0', '-1 -2 3', '-1 -1 -2', '-1 -1 -1',
        'J-1 -2', 'J-1 -1', '0 h c', '-1 -2 3 h', 'J-1 J-2', 'c i', 'c c', '-1 -1 -2 -2', '-1 -2 J0']
T = {1: [[[1]], [[-3]]],
     2: [[[1, 0], [0, 1]], [[1, 2], [1, 3]], [[0, 1], [-1, 1]]],
     3: [np.eye(3).tolist(), [[1, 1, 0], [1, 2, 1], [0, 1, 2]], [[0, 0, 1], [1, 0, 2], [0, 1, -1]]],
     4: [np.eye(4).tolist(), [[1, 1, 0, 0], [1, 2, 1, 0], [0, 1, 2, 1], [0, 0, 1, 2]],
         [[0, 0, 1, 0], [1, 0, 0, 0], [1, 0, 0, 1], [0, 1, 0, 3]]]}
SHAPES = {'quick': [(1, 1), (2, 2), (1, 2), (2, 1)], 'thorough': [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2)]}
ROOTS = {'-1': [1, 1], '-2': [1, 2], '2': [1, -2], '0': [1, 0], 'c': [1, 2, 5], 'i': [1, 0, 1],
         '-3': [1, 3]}
BOUNDS = {
    'quick': 'state models: %d mode multisets (real, complex, repeated, Jordan; order 1-4) x every '
             'controllable/observable labelling x coordinates (3 integer changes of basis) x 1x1, '
             '1x2, 2x1, 2x2 channels; every 1x1 model of order 1 and 2 with entries in {-1,0,1}; '
             'transfers: every pair of root multisets (up to 3 zeros and 3 poles over 7 factors, each at most twice), '
             'near cancellations at distances 1e-9/1e-3 with two tolerances, named MIMO '
             'transfers; 3 random-generator answers' % len(SETS),
    'thorough': 'as quick with 3x2 channels, all 2-state 1x2 and 2x1 models in a family and up to 4 '
                'zeros and poles'}
ASSUMPTIONS = ['the random answers are constant 0, constant 1/2 and a low-discrepancy sequence']
CHUNK = 4
RANDS = {'zero': lambda *s: np.zeros(s), 'half': lambda *s: np.full(s, .5),
         'seq': lambda *s: ((np.arange(1, int(np.prod(s))+1)*0.6180339887498949) % 1).reshape(s)}


def blocks(names):
    """Real modal blocks of a mode multiset."""
    out = []
    for x in names.split():
        if x[0] == 'J':
            v = REAL[x[1:]]
            out.append(np.array([[v, 1], [0, v]], float))
        elif x in PAIR:
            s, w = PAIR[x]
            out.append(np.array([[s, w], [-w, s]], float))
        else:
            out.append(np.array([[REAL[x]]], float))
    return out


def cases(tier):
    out = []
    for i, s in enumerate(SETS):
        bl = blocks(s)
        n = sum(len(b) for b in bl)
        for lab in itertools.product(range(4), repeat=len(bl)):
            out.append(['modes', s, list(lab), tier])
    for a in itertools.product(D3, repeat=4):
        out.append(['full2', list(a), tier])
    out.append(['full1'])
    k = sorted(ROOTS)
    n = 3 if tier == 'quick' else 4
    sets = [list(c) for q in range(n+1) for c in itertools.combinations_with_replacement(k, q)
            if twice(c)]
    for d in sets:
        out.append(['tf', d, n])
    out += [['near', k1] for k1 in k if k1 not in 'ci'] + [['mimo', None], ['static', None]]
    return out


def twice(roots):
    return all(roots.count(x) < 3 for x in roots)


def order(a, b, c):
    """Exact minimal order: rank of the Hankel matrix of Markov parameters."""
    a, b, c = fmat(a), fmat(b), fmat(c)
    n = len(a)
    ctr, x = [list(r) for r in b], b
    for _ in range(n-1):
        x = fmul(a, x)
        ctr = [r+list(s) for r, s in zip(ctr, x)]
    obs, y = [list(r) for r in c], c
    for _ in range(n-1):
        y = fmul(y, a)
        obs += [list(r) for r in y]
    return frank(fmul(obs, ctr))


def check_state(rep, key, a, b, c, d, dt, rname='seq', **kw):
    rep.trace()
    rep.step()
    rep.state(key)
    spec = Ss(a, b, c, d, dt)
    g = spec.build()
    before = model_state(g)
    with env.scripted(rand=RANDS[rname]):
        r = call(minimal_realization, g, **kw)
    if model_state(g) != before:
        return rep.violation(key, 'mutated', 'the model was changed')
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    if not isinstance(r, State) or r.shape != spec.shape or r.SamplingPeriod != dt:
        return rep.violation(key, 'form', '%r shape %s dt %s' % (
            type(r), getattr(r, 'shape', None), getattr(r, 'SamplingPeriod', None)))
    n = order(a, b, c)
    got = 0 if is_gain(r) else r.a.shape[0]
    if not same_values(rep, 'state values', obj_values(r), spec.values(), 1e-6, 1e6):
        return rep.violation(key, 'values', 'transfer matrix differs')
    if got != n:
        return rep.violation(key, 'order', '%d states, minimal order is %d' % (got, n))
    rep.outcome('state %d->%d' % (spec.n, n))


def inout(bl, lab, p, m):
    """Input and output matrices: block i controllable/observable by its label bits."""
    n = sum(len(x) for x in bl)
    b, c = np.zeros((n, m)), np.zeros((p, n))
    k = 0
    for i, (x, l) in enumerate(zip(bl, lab)):
        q = len(x)
        if l & 1:
            b[k+q-1, i % m] = 1
            if m > 1 and i > 0:
                b[k+q-1, 0] += 1
        if l & 2:
            c[i % p, k] = 1
            if p > 1 and i > 0:
                c[p-1, k] -= 1
        k += q
    return b, c


def run(case, rep):
    kind = case[0]
    if kind == 'modes':
        s, lab, tier = case[1:]
        bl = blocks(s)
        n = sum(len(x) for x in bl)
        a = np.zeros((n, n))
        k = 0
        for x in bl:
            a[k:k+len(x), k:k+len(x)] = x
            k += len(x)
        for p, m in SHAPES[tier]:
            b, c = inout(bl, lab, p, m)
            for it, t in enumerate(T[n]):
                t = np.array(t, float)
                ti = np.round(np.linalg.inv(t)*3)/3
                for rn in (RANDS if it == 0 and (p, m) == (1, 1) else ['seq']):
                    check_state(rep, 'modes %s lab%s %dx%d T%d %s' % (
                        s, ''.join(map(str, lab)), p, m, it, rn), ti@a@t, ti@b, c@t,
                        np.ones((p, m)) if it == 1 else np.zeros((p, m)),
                        0.5 if it == 2 else None, rn)
    elif kind == 'full1':
        for a, b, c in itertools.product(D3, repeat=3):
            check_state(rep, 'full1 %d %d %d' % (a, b, c), [[a]], [[b]], [[c]], [[1]], None)
    elif kind == 'full2':
        a = np.reshape(case[1], (2, 2))
        for b in itertools.product(D3, repeat=2):
            for c in itertools.product(D3, repeat=2):
                check_state(rep, 'full2 %s %s %s' % (case[1], b, c), a, np.reshape(b, (2, 1)),
                            np.reshape(c, (1, 2)), [[0]], None)
        if case[2] == 'thorough':
            for b in itertools.product(D3, repeat=4):
                for c in itertools.product((0, 1), repeat=2):
                    check_state(rep, 'full212 %s %s %s' % (case[1], b, c), a,
                                np.reshape(b, (2, 2)), np.reshape(c, (1, 2)), [[0, 1]], 1.)
                    check_state(rep, 'full221 %s %s %s' % (case[1], b, c), a,
                                np.reshape(c, (2, 1)), np.reshape(b, (2, 2)), [[0], [1]], None)
    elif kind == 'tf':
        d, n = case[1:]
        k = sorted(ROOTS)
        for q in range(n+1):
            for z in itertools.combinations_with_replacement(k, q):
                num, den = prod(z, 2), prod(d, 1)
                if twice(z) and len(num) <= len(den):
                    check_tf(rep, 'tf %s / %s' % (','.join(z), ','.join(d)), [[(num, den)]],
                             0.5 if q == 2 else None)
    elif kind == 'near':
        near(rep, case[1])
    elif kind == 'mimo':
        for k, s in alpha.TRANSFERS.items():
            for dt in (None, 0.5):
                check_tf(rep, 'tf %s dt=%s' % (k, dt), s.e, dt)
        for i, (z, d) in enumerate(itertools.product(
                [(), ('-1',), ('c',), ('-1', '-2'), ('0',)],
                [('-1',), ('c',), ('-1', '-2'), ('-1', '0', 'c'), ('-1', '-1')])):
            e = (prod(z, 3), prod(d, 2)) if len(prod(z, 1)) <= len(prod(d, 1)) else ([1.], [1., 2])
            o = ([1., 1], [1., 3, 2])
            for j, pat in enumerate(([[e, o]], [[o], [e]], [[e, o], [o, e]], [[o, ([0.], [1.])],
                                                                             [e, e]])):
                check_tf(rep, 'tf mimo %s/%s %d' % (','.join(z), ','.join(d), j), pat, None)
    elif kind == 'static':
        for k, s in list(alpha.STATES.items()):
            for dt in (None, 0.5):
                s2 = s.with_dt(dt)
                if s2.gain:
                    check_gain(rep, '%s dt=%s' % (k, dt), s2)
                else:
                    check_state(rep, 'named %s dt=%s' % (k, dt), s2.a, s2.b, s2.c, s2.d, dt)


def prod(names, gain):
    p = [float(gain)]
    for x in names:
        p = np.convolve(p, ROOTS[x])
    return [float(v) for v in p]


def check_gain(rep, key, s):
    rep.trace()
    rep.step()
    rep.state(key)
    r = call(minimal_realization, s.build())
    if isinstance(r, Err) or type(r) is not State or not is_gain(r) or r.SamplingPeriod != s.dt \
            or not np.array_equal(r.d, s.d):
        return rep.violation(key, 'gain', repr(r))
    rep.outcome('gain')


def entries(g):
    if g.shape == (1, 1):
        return [[(g.num, g.den)]]
    return [[(g.num[i][j], g.den[i][j]) for j in range(g.shape[1])] for i in range(g.shape[0])]


def check_tf(rep, key, e, dt, degrees=None, **kw):
    rep.trace()
    rep.step()
    rep.state(key)
    spec = Tf(e, dt)
    g = spec.build()
    before = model_state(g)
    r = call(minimal_realization, g, **kw)
    if model_state(g) != before:
        return rep.violation(key, 'mutated', 'the model was changed')
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    if not isinstance(r, Transfer) or r.shape != spec.shape or r.SamplingPeriod != dt:
        return rep.violation(key, 'form', '%r shape %s' % (type(r), getattr(r, 'shape', None)))
    if not degrees and not same_values(rep, 'tf values', obj_values(r), spec.values(), 1e-5, 1e6):
        return rep.violation(key, 'values', 'transfer matrix differs')
    ge = entries(r)
    for i in range(spec.shape[0]):
        for j in range(spec.shape[1]):
            n, d = spec.e[i][j]
            if degrees:
                nn, nd = degrees
            elif not np.any(n):
                nn, nd = 0, 0
            else:
                q = len(pgcd(F(n), F(d)))-1
                nn, nd = len(trim(n))-1-q, len(trim(d))-1-q
            gn, gd = (np.trim_zeros(np.ravel(x), 'f').size-1 for x in ge[i][j])
            if (max(gn, 0), gd) != (nn, nd):
                return rep.violation(key, 'degree', 'entry %d,%d has degrees %d/%d, minimal are '
                                     '%d/%d' % (i, j, gn, gd, nn, nd))
    rep.outcome('tf')


def near(rep, root):
    r = -ROOTS[root][1]
    for delta in (1e-9, -1e-9, 1e-3, -1e-3):
        for tol in (None, 1e-6, 1e-2):
            for extra in ([], ['-3'], ['c']):
                if root in extra:
                    continue
                num = np.convolve([2., -2*(r+delta)], prod([], 1))
                den = np.convolve(prod([root], 1), prod(extra+['c'], 1))
                removed = abs(delta) < (tol or 1e-6)
                deg = (0, len(den)-2) if removed else (1, len(den)-1)
                kw = {} if tol is None else {'tol': tol}
                check_tf(rep, 'near %s %g tol=%s %s' % (root, delta, tol, extra),
                         [[(num.tolist(), den.tolist())]], None, deg, **kw)
