"""Reachability/observability analysis against exact rank computations."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Ss, same_values, obj_values, model_state, frank, fmat, fmul
from . import c22
from harold import (State, controllability_matrix, observability_matrix, is_kalman_controllable,
                    is_kalman_observable, kalman_decomposition, controllability_indices)

D3 = (-1, 0, 1)
BOUNDS = {
    'quick': 'every (A,B) and (A,C) with entries in {-1,0,1} for 1 and 2 states and 1, 2 channels; '
             'every 2-state single-channel triple (A,B,C); %d mode multisets of order 1-4 x every '
             'controllable/observable labelling x 3 integer coordinates x 1x1, 1x2, 2x1, 2x2 '
             'channels; all 3-state companion/diagonal pairs with every input pattern in {0,1}; '
             'model and tuple arguments, lists, both compression settings, both outputs, with and '
             'without transformation' % len(c22.SETS),
    'thorough': 'as quick with 3x2 channels and every 2-state 2-channel triple with {0,1} outputs'}
ASSUMPTIONS = ['which input receives which controllability index may depend on the order in which '
               'the columns are taken; any order is accepted']
CHUNK = 4


def cases(tier):
    out = []
    for s in c22.SETS:
        for lab in itertools.product(range(4), repeat=len(c22.blocks(s))):
            out.append(['modes', s, list(lab), tier])
    for a in itertools.product(D3, repeat=4):
        out.append(['full2', list(a), tier])
    for a in range(len(A3)):
        out.append(['three', a])
    return out + [['full1'], ['static'], ['refuse']]


A3 = [np.array(x, float) for x in (
    [[0, 1, 0], [0, 0, 1], [1, -1, 1]], [[0, 1, 0], [0, 0, 1], [0, 0, 0]],
    [[1, 0, 0], [0, 2, 0], [0, 0, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 2]],
    [[1, 1, 0], [0, 1, 0], [0, 0, 1]], np.eye(3), np.zeros((3, 3)),
    [[0, 1, 0], [-1, 0, 0], [0, 0, 2]], [[2, 1, 1], [5, 3, 6], [-5, -1, -4]])]


def ctrb(a, b):
    """Exact controllability matrix."""
    a, x = fmat(a), fmat(b)
    out = [list(r) for r in x]
    for _ in range(len(a)-1):
        x = fmul(a, x)
        out = [r+list(s) for r, s in zip(out, x)]
    return out


def tr(m):
    return [list(r) for r in zip(*m)]


def check_pair(rep, key, a, b, dual, how, compress):
    """One call of the controllability (or dual) matrix."""
    rep.step()
    n = len(a)
    ref = ctrb(a, b)
    r0 = frank(ref)
    refm = np.array([[float(x) for x in r] for r in ref])
    f, rk = (observability_matrix, is_kalman_observable) if dual else (
        controllability_matrix, is_kalman_controllable)
    aa, bb = (a.T, b.T) if dual else (a, b)
    if how == 'state':
        g = State(aa, np.ones((n, 2)), bb) if dual else State(aa, bb, np.ones((2, n)))
    elif how == 'lists':
        g = (aa.tolist(), bb.tolist())
    else:
        g = (aa.copy(), bb.copy())
    r = call(f, g, compress) if compress else call(f, g)
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    m, t, rank = r
    if dual:
        m = np.asarray(m).T
    if rank != r0:
        return rep.violation(key, 'rank', 'rank %s, exact rank %d' % (rank, r0))
    if np.shape(t) != (n, n) or not rep.close('orth', t.T @ t, np.eye(n), 1e-9):
        return rep.violation(key, 'T', 'the transformation is not orthogonal')
    comp = t.T @ refm
    scale = 1+np.abs(refm).max()
    if compress:
        if not rep.close('compressed', m, comp, 1e-9, scale):
            return rep.violation(key, 'compressed', 'is not the transformed matrix')
    elif not rep.close('matrix', m, refm, 1e-12, scale):
        return rep.violation(key, 'matrix', 'matrix differs')
    if not rep.close('zero rows', comp[r0:], np.zeros_like(comp[r0:]), 1e-9, scale):
        return rep.violation(key, 'zero rows', 'no zero rows/columns beyond the rank')
    if r0 and np.linalg.svd(comp[:r0])[1][-1] < 1e-9:
        return rep.violation(key, 'rows', 'leading part has no full rank')
    q = call(rk, g)
    if q is not True and q is not False and not isinstance(q, np.bool_) or bool(q) != (r0 == n):
        return rep.violation(key, 'answer', 'controllable/observable: %r, rank %d of %d' % (
            q, r0, n))
    rep.outcome('%s rank %d of %d' % ('obs' if dual else 'ctr', r0, n))


def indices(a, b, order):
    """Exact controllability indices for a column order."""
    a, x = fmat(a), fmat(b)
    ind, rem, have, rk = [0]*len(x[0]), list(order), [], 0
    while rem and rk < len(a):
        for j in list(rem):
            v = [r[j] for r in x]
            if frank(have+[v]) > rk:
                have.append(v)
                rk += 1
                ind[j] += 1
            else:
                rem.remove(j)
        x = fmul(a, x)
    return tuple(ind)


def check_indices(rep, key, a, b, as_list=False):
    rep.step()
    r = call(controllability_indices, *((a.tolist(), b.tolist()) if as_list else (a, b)))
    if isinstance(r, Err):
        return rep.violation(key, 'indices refused', repr(r))
    ok = {indices(a, b, o) for o in itertools.permutations(range(b.shape[1]))}
    if tuple(int(x) for x in r) not in ok:
        return rep.violation(key, 'indices', 'indices %s, exact %s' % (r, sorted(ok)))
    rep.outcome('indices %s' % (sorted(ok)[-1],))


def check_decomposition(rep, key, a, b, c, dt, full=True):
    rep.state(key)
    rep.trace()
    d = np.arange(1., 1+len(c)*b.shape[1]).reshape(len(c), -1) if dt else np.zeros(
        (len(c), b.shape[1]))
    spec = Ss(a, b, c, d, dt)
    g = spec.build()
    before = model_state(g)
    for comp, out in itertools.product((False, True), ('system', 'matrices')):
        if not full and (comp, out) != (True, 'system'):
            continue
        rep.step()
        r = call(kalman_decomposition, g, comp, out)
        if model_state(g) != before:
            return rep.violation(key, 'mutated', 'the model was changed')
        if isinstance(r, Err):
            if not b.any():
                rep.outcome('refused zero input matrix')
                continue
            return rep.violation(key, 'decomposition refused', repr(r))
        t = None
        if comp:
            r, t = r
        if out == 'system':
            if type(r) is not State or r.SamplingPeriod != dt or r.shape != spec.shape:
                return rep.violation(key, 'form', repr(r))
            m = r.matrices
        else:
            m = r
        n = spec.n
        if [np.shape(x) for x in m] != [(n, n), (n, b.shape[1]), (len(c), n), d.shape]:
            return rep.violation(key, 'shapes', str([np.shape(x) for x in m]))
        ak, bk, ck, dk = m
        if not np.array_equal(dk, d):
            return rep.violation(key, 'feedthrough', 'feedthrough changed')
        if comp and not similar(rep, spec, ak, bk, ck, t):
            return rep.violation(key, 'similarity', 'not the transformed model')
        got = obj_values(Ss(ak, bk, ck, dk, dt).build())
        if not same_values(rep, 'values', got, spec.values(), 1e-7, 1e6):
            return rep.violation(key, 'values', 'transfer matrix differs')
        bad = pattern(rep, spec, ak, bk, ck)
        if bad:
            return rep.violation(key, 'pattern', bad)
    rep.outcome('decomposition')


def similar(rep, s, ak, bk, ck, t):
    if np.shape(t) != (s.n, s.n) or np.linalg.cond(t) > 1e6:
        return False
    sc = (1+np.abs(s.a).max())*(1+np.abs(t).max())
    return (rep.close('sim a', t@ak, s.a@t, 1e-7, sc) and rep.close('sim b', t@bk, s.b, 1e-7)
            and rep.close('sim c', ck, s.c@t, 1e-7))


def pattern(rep, s, ak, bk, ck):
    """Zero blocks: the trailing states are uncontrollable, the trailing ones of each part
    unobservable."""
    n = s.n
    ctr, obs = ctrb(s.a, s.b), tr(ctrb(s.a.T, s.c.T))
    rc, ro = frank(ctr), frank(obs)
    rco = frank(fmul(obs, ctr))
    nb = n-ro-(rc-rco)          # unobservable and not controllable
    unobs = list(range(rco, rc))+list(range(n-nb, n))
    rest = [i for i in range(n) if i not in unobs]
    for what, blk in (('input rows of the uncontrollable states', bk[rc:]),
                      ('coupling into the uncontrollable states', ak[rc:, :rc]),
                      ('output columns of the unobservable states', ck[:, unobs]),
                      ('coupling out of the unobservable states', ak[np.ix_(rest, unobs)])):
        if np.any(np.abs(blk) > 1e-7*(1+np.abs(s.a).max())):
            return '%s are not zero (orders %d %d %d of %d)' % (what, rc, ro, rco, n)


def run(case, rep):
    kind = case[0]
    if kind == 'modes':
        s, lab, tier = case[1:]
        bl = c22.blocks(s)
        n = sum(len(x) for x in bl)
        a = np.zeros((n, n))
        k = 0
        for x in bl:
            a[k:k+len(x), k:k+len(x)] = x
            k += len(x)
        for p, m in c22.SHAPES[tier]:
            b, c = c22.inout(bl, lab, p, m)
            for it, t in enumerate(c22.T[n]):
                t = np.array(t, float)
                ti = np.round(np.linalg.inv(t)*3)/3
                key = 'modes %s lab%s %dx%d T%d' % (s, ''.join(map(str, lab)), p, m, it)
                triple(rep, key, ti@a@t, ti@b, c@t, 0.5 if it == 2 else None)
    elif kind == 'full1':
        for a, b, c in itertools.product(D3, repeat=3):
            triple(rep, 'full1 %d %d %d' % (a, b, c), *(np.array([[x]], float) for x in (a, b, c)),
                   None)
    elif kind == 'full2':
        a = np.reshape(case[1], (2, 2)).astype(float)
        cols = [np.reshape(x, (2, 1)).astype(float) for x in itertools.product(D3, repeat=2)]
        for b in cols:
            pairs(rep, 'full2 %s %s' % (case[1], b.ravel().astype(int)), a, b)
            for c in cols:
                check_decomposition(rep, 'full2 %s %s %s' % (
                    case[1], b.ravel().astype(int), c.ravel().astype(int)), a, b, c.T, None, False)
        for b in itertools.product(cols, repeat=2):
            b = np.hstack(b)
            pairs(rep, 'full2 %s %s' % (case[1], b.astype(int).tolist()), a, b)
            if case[2] == 'thorough':
                for c in itertools.product((0, 1), repeat=4):
                    check_decomposition(rep, 'full22 %s %s %s' % (
                        case[1], b.astype(int).tolist(), c), a, b,
                        np.reshape(c, (2, 2)).astype(float), None, False)
    elif kind == 'three':
        a = A3[case[1]]
        for b in itertools.product((0, 1), repeat=3):
            for c in itertools.product((0, 1), repeat=3):
                triple(rep, 'three %d %s %s' % (case[1], b, c), a,
                       np.reshape(b, (3, 1)).astype(float), np.reshape(c, (1, 3)).astype(float),
                       None)
        for b in itertools.product((0, 1), repeat=6):
            b = np.reshape(b, (3, 2)).astype(float)
            pairs(rep, 'three %d %s' % (case[1], b.astype(int).tolist()), a, b)
        for b in itertools.product((0, 1), repeat=9):
            b = np.reshape(b, (3, 3)).astype(float)
            check_indices(rep, 'three %d %s' % (case[1], b.astype(int).tolist()), a, b)
    elif kind == 'static':
        for k, s in alpha.STATES.items():
            for dt in (None, 0.5):
                s2 = s.with_dt(dt)
                if s2.gain:
                    static(rep, 'static %s dt=%s' % (k, dt), s2)
                else:
                    check_decomposition(rep, 'named %s dt=%s' % (k, dt), s2.a, s2.b, s2.c, dt)
    elif kind == 'refuse':
        e, o = np.eye(2), np.ones((3, 1))
        for f in (controllability_matrix, is_kalman_controllable):
            refuse(rep, f, (e, o))
            refuse(rep, f, (np.ones((2, 3)), np.ones((2, 1))))
            refuse(rep, f, 1)
        for f in (observability_matrix, is_kalman_observable):
            refuse(rep, f, (e, o.T))
            refuse(rep, f, (np.ones((2, 3)), np.ones((1, 2))))
            refuse(rep, f, 'a')
        for x in (1, (e, o), [1, 2]):
            refuse(rep, kalman_decomposition, x)
        refuse(rep, controllability_indices, e, o)
        refuse(rep, controllability_indices, np.ones((2, 3)), np.ones((2, 1)))
        refuse(rep, controllability_indices, e*np.nan, np.ones((2, 1)))


def pairs(rep, key, a, b):
    rep.state(key)
    rep.trace()
    for dual in (False, True):
        for how, compress in (('arrays', False), ('lists', True), ('state', False),
                              ('state', True)):
            check_pair(rep, '%s %s %s %s' % (key, 'obs' if dual else 'ctr', how, compress),
                       a, b, dual, how, compress)
    check_indices(rep, key, a, b)
    check_indices(rep, key + ' lists', a, b, True)


def triple(rep, key, a, b, c, dt):
    pairs(rep, key + ' ab', a, b)
    pairs(rep, key + ' ac', a.T, c.T)
    check_decomposition(rep, key, a, b, c, dt)


def static(rep, key, s):
    rep.state(key)
    rep.trace()
    for comp, out in itertools.product((False, True), ('system', 'matrices')):
        rep.step()
        g = s.build()
        r = call(kalman_decomposition, g, comp, out)
        if isinstance(r, Err):
            return rep.violation(key, 'gain refused', repr(r))
        if comp:
            if not isinstance(r, tuple) or len(r) != 2 or np.shape(r[1]) != (0, 0):
                return rep.violation(key, 'gain T', repr(r))
            r = r[0]
        d = r.d if out == 'system' else r[3]
        if not np.array_equal(d, s.d) or out == 'system' and r.SamplingPeriod != s.dt:
            return rep.violation(key, 'gain', repr(r))
    rep.outcome('gain')


def refuse(rep, f, *a):
    rep.step()
    r = call(f, *a)
    key = 'refuse %s %s' % (f.__name__, [[np.shape(y) for y in x] if isinstance(x, (tuple, list)) else str(np.shape(x)) for x in a])
    if not isinstance(r, Err) or r.name not in ('ValueError', 'TypeError', 'LinAlgError'):
        return rep.violation(key, 'not refused', repr(r))
    rep.outcome('refused')
