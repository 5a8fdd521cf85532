"""Staircase and Hessenberg forms: orthogonal similarity and zero pattern."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Ss, Tf, same_values, obj_values, model_state, frank, fmat, fmul, is_gain
from . import c20, c22
from harold import State, Transfer, staircase, hessenberg_realization, transfer_to_state

D3 = (-1, 0, 1)
OPTS = list(itertools.product('co', (False, True)))
BOUNDS = {
    'quick': 'every 1- and 2-state triple with entries in {-1,0,1} and 1 channel, every 2-state '
             'pair with 2 channels; %d mode multisets of order 1-4 x every controllable/observable '
             'labelling x 3 integer coordinates x 1x1, 1x2, 2x1, 2x2 channels; 9 three-state '
             'matrices x every {0,1} input and output vector and every {0,1} 3x2 input; named '
             'state and transfer models; both forms, normal and inverted, system and matrix '
             'output, with and without transformation' % len(c22.SETS),
    'thorough': 'as quick with 3x2 channels and {0,1} output matrices for all 2-channel pairs'}
ASSUMPTIONS = ['with several inputs a Hessenberg state matrix leaves room only for the first '
               'column of the input matrix to be compressed, so only that one is required to be']
CHUNK = 4


def cases(tier):
    out = []
    for s in c22.SETS:
        for lab in itertools.product(range(4), repeat=len(c22.blocks(s))):
            out.append(['modes', s, list(lab), tier])
    for a in itertools.product(D3, repeat=4):
        out.append(['full2', list(a), tier])
    for a in range(len(c20.A3)):
        out.append(['three', a])
    return out + [['full1'], ['named'], ['refuse']]


def dims(a, b):
    """Exact ranks r1, r2, ... added by B, AB, A^2B, ..."""
    a, x = fmat(a), fmat(b)
    cur, out, rk = [list(r) for r in x], [], 0
    for _ in range(len(a)):
        q = frank(cur)
        if q == rk:
            break
        out.append(q-rk)
        rk = q
        x = fmul(a, x)
        cur = [r+list(s) for r, s in zip(cur, x)]
    return out


def similar(rep, a, b, c, ah, bh, ch, t, sc):
    n = len(a)
    if np.shape(t) != (n, n) or not rep.close('orth', t.T@t, np.eye(n), 1e-9):
        return 'the transformation is not orthogonal'
    for w, x, y in (('A', ah, t.T@a@t), ('B', bh, t.T@b), ('C', ch, c@t)):
        if np.shape(x) != np.shape(y) or not rep.close('sim ' + w, x, y, 1e-9, sc):
            return 'transformed %s differs' % w


def zero(x, sc):
    return not np.any(np.abs(x) > 1e-9*sc)


def normal(form, invert, ah, bh):
    """The pair in plain controllability version."""
    if form == 'o':
        ah, bh = ah.T, bh.T
    return (ah[::-1, ::-1], bh[::-1]) if invert else (ah, bh)


def check_staircase(rep, key, a, b, c):
    for form, invert in OPTS:
        rep.step()
        sc = 1+max(np.abs(x).max() for x in (a, b, c))
        keep = [x.copy() for x in (a, b, c)]
        r = call(staircase, a, b, c, form=form, invert=invert)
        k = '%s stair %s %s' % (key, form, invert)
        if not all(np.array_equal(x, y) for x, y in zip(keep, (a, b, c))):
            return rep.violation(k, 'mutated', 'argument changed')
        if isinstance(r, Err):
            return rep.violation(k, 'refused', repr(r))
        bad = similar(rep, a, b, c, *r, sc)
        if bad:
            return rep.violation(k, 'similarity', bad)
        ref = dims(a, b) if form == 'c' else dims(a.T, c.T)
        x, y = normal(form, invert, r[0], r[1] if form == 'c' else r[2])
        if not ref:
            continue
        # leading blocks, each one full row rank, zeros below them
        lead = 0
        blk = y
        for d in ref:
            nxt = lead+d
            part = blk[lead:]
            if not zero(part[d:], sc):
                return rep.violation(k, 'pattern', 'block %d..%d is not compressed' % (lead, nxt))
            if np.linalg.svd(part[:d])[1][-1] < 1e-7:
                return rep.violation(k, 'rank', 'block %d..%d has no full row rank' % (lead, nxt))
            blk = x[:, lead:nxt]
            lead = nxt
        if not zero(x[lead:, :lead], sc):
            return rep.violation(k, 'pattern', 'uncontrollable part is coupled')
        rep.outcome('staircase %s' % ref)


def check_hess(rep, key, g, a, b, c, d, dt):
    """g: model or triplet"""
    sysin = not isinstance(g, tuple)
    before = model_state(g) if sysin else [x.copy() for x in g]
    for (form, invert), comp, out in itertools.product(OPTS, (False, True),
                                                       ('system', 'matrices')):
        rep.step()
        k = '%s hess %s %s %s %s' % (key, form, invert, comp, out)
        r = call(hessenberg_realization, g, comp, form, invert, out)
        if isinstance(r, Err):
            return rep.violation(k, 'refused', repr(r))
        if (model_state(g) != before if sysin else
                not all(np.array_equal(x, y) for x, y in zip(g, before))):
            return rep.violation(k, 'mutated', 'argument changed')
        t = None
        if out == 'system':
            if comp:
                r, t = r
            if type(r) is not State or r.SamplingPeriod != dt or r.shape != d.shape:
                return rep.violation(k, 'form', repr(r))
            ah, bh, ch, dh = r.matrices
            if not rep.close('d', dh, d, 1e-12):
                return rep.violation(k, 'feedthrough', 'feedthrough %s' % dh.tolist())
        else:
            ah, bh, ch = r[:3]
            if len(r) != (4 if comp else 3):
                return rep.violation(k, 'form', '%d results' % len(r))
            t = r[3] if comp else None
        sc = 1+max(np.abs(x).max() for x in (a, b, c))
        if np.shape(ah) != a.shape or np.shape(bh) != b.shape or np.shape(ch) != c.shape:
            return rep.violation(k, 'shape', str([np.shape(x) for x in (ah, bh, ch)]))
        if comp:
            bad = similar(rep, a, b, c, ah, bh, ch, t, sc)
            if bad:
                return rep.violation(k, 'similarity', bad)
        else:
            got = obj_values(Ss(ah, bh, ch, d, dt).build())
            if not same_values(rep, 'values', got, Ss(a, b, c, d, dt).values(), 1e-7, 1e6):
                return rep.violation(k, 'values', 'transfer matrix differs')
        x, y = normal(form, invert, ah, bh if form == 'c' else ch)
        if not zero(np.tril(x, -2), sc):
            return rep.violation(k, 'pattern', 'not Hessenberg')
        if not zero(y[1:, 0], sc):
            return rep.violation(k, 'pattern', 'not compressed')
    rep.outcome('hessenberg %dx%d' % d.shape)


def triple(rep, key, a, b, c, dt):
    rep.state(key)
    rep.trace()
    check_staircase(rep, key, a, b, c)
    d = np.arange(1., 1+len(c)*b.shape[1]).reshape(len(c), -1)
    if dt is None:
        check_hess(rep, key, (a, b, c), a, b, c, 0*d, None)
    else:
        check_hess(rep, key, Ss(a, b, c, d, dt).build(), a, b, c, d, dt)


def run(case, rep):
    kind = case[0]
    if kind == 'modes':
        s, lab, tier = case[1:]
        bl = c22.blocks(s)
        n = sum(len(x) for x in bl)
        a = np.zeros((n, n))
        k = 0
        for x in bl:
            a[k:k+len(x), k:k+len(x)] = x
            k += len(x)
        for p, m in c22.SHAPES[tier]:
            b, c = c22.inout(bl, lab, p, m)
            for it, t in enumerate(c22.T[n]):
                t = np.array(t, float)
                ti = np.round(np.linalg.inv(t)*3)/3
                triple(rep, 'modes %s lab%s %dx%d T%d' % (s, ''.join(map(str, lab)), p, m, it),
                       ti@a@t, ti@b, c@t, 0.5 if it == 2 else None)
    elif kind == 'full1':
        for a, b, c in itertools.product(D3, repeat=3):
            triple(rep, 'full1 %d %d %d' % (a, b, c), *(np.array([[x]], float) for x in (a, b, c)),
                   0.5 if a else None)
    elif kind == 'full2':
        a = np.reshape(case[1], (2, 2)).astype(float)
        cols = [np.reshape(x, (2, 1)).astype(float) for x in itertools.product(D3, repeat=2)]
        for b, c in itertools.product(cols, repeat=2):
            key = 'full2 %s %s %s' % (case[1], b.ravel().astype(int), c.ravel().astype(int))
            rep.state(key)
            rep.trace()
            check_staircase(rep, key, a, b, c.T)
            if c.all():
                check_hess(rep, key, (a, b, c.T), a, b, c.T, np.zeros((1, 1)), None)
        for b in itertools.product(cols, repeat=2):
            b = np.hstack(b)
            cs = itertools.product((0, 1), repeat=4) if case[2] == 'thorough' else [(1, 2, 0, 1)]
            for c in cs:
                key = 'full22 %s %s %s' % (case[1], b.astype(int).tolist(), c)
                c = np.reshape(c, (2, 2)).astype(float)
                rep.state(key)
                rep.trace()
                check_staircase(rep, key, a, b, c)
                check_staircase(rep, key + ' dual', a.T, c.T, b.T)
                check_hess(rep, key, (a, b, c), a, b, c, np.zeros((2, 2)), None)
    elif kind == 'three':
        a = c20.A3[case[1]]
        for b in itertools.product((0, 1), repeat=3):
            for c in itertools.product((0, 1), repeat=3):
                triple(rep, 'three %d %s %s' % (case[1], b, c), a,
                       np.reshape(b, (3, 1)).astype(float), np.reshape(c, (1, 3)).astype(float),
                       1.)
        for b in itertools.product((0, 1), repeat=6):
            b = np.reshape(b, (3, 2)).astype(float)
            triple(rep, 'three %d %s' % (case[1], b.astype(int).tolist()), a, b,
                   np.array([[1., 2, 3]]), None)
            triple(rep, 'three %d %s dual' % (case[1], b.astype(int).tolist()), a.T,
                   np.array([[1., 2, 3]]).T, b.T, None)
    elif kind == 'named':
        canc = {'canc1': Tf([[([2., 2], [1., 1])]]), 'canc2': Tf([[([3., 3, 3], [1., 1, 1])]]),
                'canc12': Tf([[([2., 2], [1., 1]), ([0.], [1.])]])}
        for k, s in (list(alpha.STATES.items()) + list(alpha.TRANSFERS.items())
                     + list(canc.items())):
            for dt in (None, 0.5):
                g = s.with_dt(dt).build()
                key = 'named %s dt=%s' % (k, dt)
                rep.state(key)
                rep.trace()
                m = transfer_to_state(g, output='matrices') if isinstance(g, Transfer) \
                    else g.matrices
                if is_gain(g) or m[0].size == 0:
                    static(rep, key, g, s)
                else:
                    check_hess(rep, key, g, *m, dt)
                    if k in alpha.STATES:
                        check_staircase(rep, key, *m[:3])
    elif kind == 'refuse':
        a, b, c = np.eye(2), np.ones((2, 1)), np.ones((1, 2))
        for args in ((a, np.ones((3, 1)), c), (np.ones((2, 3)), b, c), (a, b, np.ones((1, 3)))):
            refuse(rep, staircase, *args)
            refuse(rep, hessenberg_realization, args)
        for f in ('zzz', 'C', ''):
            refuse(rep, staircase, a, b, c, form=f)
        refuse(rep, hessenberg_realization, 3)


def static(rep, key, g, s):
    ref = g.to_array() if is_gain(g) else None
    for (form, invert), comp, out in itertools.product(OPTS, (False, True),
                                                       ('system', 'matrices')):
        rep.step()
        k = '%s hess %s %s %s %s' % (key, form, invert, comp, out)
        r = call(hessenberg_realization, g, comp, form, invert, out)
        if isinstance(r, Err):
            return rep.violation(k, 'refused', repr(r))
        if out == 'system':
            if comp:
                r, t = r
                if np.shape(t) != (0, 0):
                    return rep.violation(k, 'gain T', repr(t))
            if r.shape != g.shape or r.SamplingPeriod != g.SamplingPeriod or not same_values(
                    rep, 'gain', obj_values(r), s.with_dt(g.SamplingPeriod).values(), 1e-9):
                return rep.violation(k, 'gain', repr(r))
        elif len(r) != 3+comp or any(np.size(x) for x in r):
            return rep.violation(k, 'gain matrices', repr(r))
    rep.outcome('gain')


def refuse(rep, f, *a, **kw):
    rep.step()
    r = call(f, *a, **kw)
    key = 'refuse %s %s' % (f.__name__, [np.shape(x) if isinstance(x, np.ndarray) else x if
                                         isinstance(x, (str, int)) else [np.shape(y) for y in x]
                                         for x in a] + list(kw.values()))
    if not isinstance(r, Err) or r.name not in ('ValueError', 'TypeError', 'LinAlgError'):
        return rep.violation(key, 'not refused', repr(r))
    rep.outcome('refused')
