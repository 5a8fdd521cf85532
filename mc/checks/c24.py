"""Regulator and pole placement designs against their defining equations."""
import itertools

import numpy as np

from ..core import call, Err
from ..ref import model_state, frank
from . import c20
from harold import State, Transfer, lqr, ackermann, transfer_to_state, place_poles

D3 = (-1, 0, 1)
LOCS = ['-1', '-2', '0', '1.5', '-1+2j', '1j', '.5+.5j']
BOUNDS = {
    'quick': 'regulators: every 1- and 2-state A with entries in {-1,0,1} x every input column, 3 '
             'three-state matrices x {0,1} inputs, 2-input pairs; continuous/discrete; 3 state '
             'weights, 3 input weights, 3 cross weights, 4 output matrices with and without '
             'feedthrough; transfers of order 1-3; placement: every pair of order 1 and 2 with '
             'entries in {-1,0,1}, 9 three-state and 3 four-state matrices x {0,1} inputs x every '
             'conjugate-closed multiset of locations over 7 values, all element orders for order 2 '
             'and 3',
    'thorough': 'as quick with all weight combinations for every regulator and all {0,1} 2-input '
                'matrices'}
ASSUMPTIONS = ['a regulator is required when the closed-loop eigenvalues of the optimal control '
               'problem stay 1e-3 away from the stability boundary']
CHUNK = 2


def cases(tier):
    out = []
    for a in itertools.product(D3, repeat=4):
        out.append(['lqr2', list(a), tier])
        out.append(['ack2', list(a)])
    out += [['lqr1', tier], ['lqr3', tier], ['tf'], ['ack1'], ['refuse']]
    out += [['ack3', i] for i in range(len(c20.A3))]
    return out + [['ack4', i] for i in range(len(A4))]


A4 = [np.array(x, float) for x in (
    [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, -1, 0, 2]], np.diag([1., 2, 3, -1]),
    [[0, 1, 0, 0], [-1, 0, 1, 0], [0, 0, 0, 2], [0, 0, -2, 0]])]


def blocks(mode, q, r, s, c, d):
    """State-weight form of the cost matrices."""
    if mode == 'output':
        p, n = c.shape
        m = d.shape[1]
        s = np.zeros((p, m)) if s is None else s
        w = np.block([[c, d], [np.zeros((m, n)), np.eye(m)]])
        f = w.T @ np.block([[q, s], [s.T, r]]) @ w
        return f[:n, :n], f[n:, n:], f[:n, n:]
    return q, r, np.zeros((q.shape[0], r.shape[0])) if s is None else s


def exists(a, b, q, r, s, disc):
    """'must' if a stabilizing solution exists with margin, 'none' if (A,B) is not stabilizable."""
    n = len(a)
    ev = np.linalg.eigvals(a)
    for e in ev:
        if (abs(e) > 1-1e-6 if disc else e.real > -1e-6):
            if np.linalg.svd(np.hstack((a-e*np.eye(n), b)))[1][-1] < 1e-6:
                return 'none' if (abs(e) > 1+1e-3 if disc else e.real > 1e-3) else 'may'
    if np.linalg.eigvalsh(r)[0] < 1e-6:
        return 'may'
    if np.linalg.eigvalsh(np.block([[q, s], [s.T, r]]))[0] < -1e-9:
        return 'may'
    ri = np.linalg.inv(r)
    at, qt = a - b@ri@s.T, q - s@ri@s.T
    for e in np.linalg.eigvals(at):
        d = abs(abs(e)-1) if disc else abs(e.real)
        if d < 1e-3 and np.linalg.svd(np.vstack((at-e*np.eye(n), qt)))[1][-1] < 1e-4:
            return 'may'
    return 'must'


def check_lqr(rep, key, g, t, q, r, s, mode, given):
    """`g` the model passed, `t` its matrices, `given` the arguments as passed."""
    rep.step()
    rep.state(key)
    rep.trace()
    a, b, c, d = t
    disc = g.SamplingPeriod is not None
    qq, rr, ss = blocks(mode, np.atleast_2d(np.array(q, float)),
                        np.eye(b.shape[1]) if r is None else np.atleast_2d(np.array(r, float)),
                        None if s is None else np.atleast_2d(np.array(s, float)), c, d)
    want = exists(a, b, qq, rr, ss, disc)
    before = model_state(g)
    res = call(lqr, g, *given[0], **given[1])
    if model_state(g) != before:
        return rep.violation(key, 'mutated', 'the model was changed')
    if isinstance(res, Err):
        if want == 'must':
            return rep.violation(key, 'refused', repr(res))
        rep.outcome('refused ' + want)
        return
    k, x, e = res
    n, m = b.shape
    if np.shape(k) != (m, n) or np.shape(x) != (n, n) or np.shape(e) != (n,):
        return rep.violation(key, 'shape', str([np.shape(y) for y in res]))
    if not all(np.all(np.isfinite(y)) for y in res):
        return rep.violation(key, 'finite', 'not finite')
    if want != 'must':
        rep.outcome('undecided ' + want)
        return
    sc = (1+np.abs(x).max())*(1+np.abs(a).max())*(1+np.abs(k).max())*(1+np.abs(b).max())**2
    if not rep.close('symmetry', x, x.T, 1e-7, sc):
        return rep.violation(key, 'symmetry', 'cost matrix is not symmetric')
    if disc:
        gain = np.linalg.solve(rr + b.T@x@b, b.T@x@a + ss.T)
        resid = a.T@x@a - x - (a.T@x@b+ss)@gain + qq
    else:
        gain = np.linalg.solve(rr, b.T@x + ss.T)
        resid = a.T@x + x@a - (x@b+ss)@gain + qq
    if not rep.close('residual', resid, 0*resid, 1e-6, sc):
        return rep.violation(key, 'riccati', 'residual %g' % np.abs(resid).max())
    if not rep.close('gain', k, gain, 1e-6, sc):
        return rep.violation(key, 'gain', '%s instead of %s' % (k.tolist(), gain.tolist()))
    cl = a-b@k
    ev = np.linalg.eigvals(cl)
    if not all(abs(z) < 1 if disc else z.real < 0 for z in ev):
        return rep.violation(key, 'unstable', 'closed loop is not stable: %s' % ev)
    if not rep.close('eigs', np.poly(e), np.poly(ev), 1e-7, 1+np.abs(np.poly(ev)).max()):
        return rep.violation(key, 'eigenvalues', '%s, closed loop has %s' % (e, ev))
    rep.outcome('%s %s' % (mode, 'discrete' if disc else 'continuous'))


def weights(n, m, full):
    q = [np.eye(n), np.eye(n)*2+np.ones((n, n)), np.diag(np.arange(1., n+1))]
    r = [None, np.eye(m)*.5, np.eye(m)*2+np.ones((m, m))]
    s = [None, np.full((n, m), .2), np.arange(n*m).reshape(n, m)*.1]
    if full:
        yield from itertools.product(q, r, s)
    else:
        for i, j, k in ((0, 0, 0), (1, 1, 0), (2, 2, 1), (1, 0, 2)):
            yield q[i], r[j], s[k]


def regs(rep, key, a, b, dt, full):
    n, m = b.shape
    for i, (q, r, s) in enumerate(weights(n, m, full)):
        g = State(a, b, np.eye(n), dt=dt)
        t = (g.a, g.b, g.c, g.d)
        pos = ([q] + ([] if r is None and s is None else [r]) + ([] if s is None else [s]), {})
        lst = ([q.tolist()], dict([] if r is None else [('R', r.tolist())],
                                  **({} if s is None else {'S': s.tolist()}), weight_on='state'))
        check_lqr(rep, '%s w%d' % (key, i), g, t, q, r, s, 'state', pos)
        check_lqr(rep, '%s w%d lists' % (key, i), g, t, q, r, s, 'state', lst)
    outs = [np.eye(n)[[0]], np.eye(n)[[-1]], np.ones((1, n)), np.eye(n)]
    for i, c in enumerate(outs):
        p = len(c)
        for d in (0., 1.):
            dd = np.full((p, m), d)
            g = State(a, b, c, dd, dt=dt)
            t = (g.a, g.b, g.c, g.d)
            for j, (q, r, s) in enumerate(weights(p, m, full)):
                kw = dict(weight_on='output' if j % 2 else 'Output')
                if r is not None:
                    kw['R'] = r
                if s is not None:
                    kw['S'] = s.tolist() if i == 0 else s
                check_lqr(rep, '%s out%d d%g w%d' % (key, i, d, j), g, t, q, r, s, 'output',
                          ([q.tolist() if j == 0 else q], kw))


def run(case, rep):
    kind = case[0]
    if kind == 'lqr1':
        for a, b, dt in itertools.product((-2, -1, 0, 1, .5), (-1, 0, 1, 2), (None, .5)):
            regs(rep, 'lqr1 %s %s dt=%s' % (a, b, dt), np.array([[a]], float),
                 np.array([[b]], float), dt, True)
    elif kind == 'lqr2':
        a = np.reshape(case[1], (2, 2)).astype(float)
        full = case[2] == 'thorough'
        for dt in (None, .5):
            for b in itertools.product(D3, repeat=2):
                regs(rep, 'lqr2 %s %s dt=%s' % (case[1], b, dt), a,
                     np.reshape(b, (2, 1)).astype(float), dt, full)
            bs = itertools.product((0, 1), repeat=4) if full else [(1, 0, 0, 1), (1, 1, 0, 0),
                                                                  (1, 2, 0, 1), (0, 0, 1, 0)]
            for b in bs:
                regs(rep, 'lqr22 %s %s dt=%s' % (case[1], b, dt), a,
                     np.reshape(b, (2, 2)).astype(float), dt, False)
    elif kind == 'lqr3':
        for i, a in enumerate(c20.A3):
            for b in itertools.product((0, 1), repeat=3):
                for dt in (None, .5):
                    regs(rep, 'lqr3 %d %s dt=%s' % (i, b, dt), a,
                         np.reshape(b, (3, 1)).astype(float), dt, case[1] == 'thorough')
    elif kind == 'tf':
        for num, den in (([1], [1, 1]), ([1], [1, -1]), ([1, 2], [1, 0, 0]), ([1], [1, 1, 1]),
                         ([2, 1], [1, -1, 1]), ([1, 0, 1], [1, 2, 3, 4]), ([1, 1], [1, 3]),
                         ([1], [1, .5, .1, -2])):
            for dt in (None, .5):
                g = Transfer(num, den, dt=dt)
                t = transfer_to_state(g, output='matrices')
                n = len(t[0])
                for j, (q, r, s) in enumerate(weights(n, 1, True)):
                    kw = {k: v for k, v in (('R', r), ('S', s)) if v is not None}
                    check_lqr(rep, 'tf %s %s dt=%s w%d' % (num, den, dt, j), g, t, q, r, s,
                              'state', ([q], kw))
                for j, (q, r, s) in enumerate(weights(1, 1, True)):
                    kw = {k: v for k, v in (('R', r), ('S', s)) if v is not None}
                    check_lqr(rep, 'tf out %s %s dt=%s w%d' % (num, den, dt, j), g, t, q, r, s,
                              'output', ([q], dict(kw, weight_on='output')))
    elif kind == 'ack1':
        for a, b in itertools.product((-2, -1, 0, 1, .5), (-1, 0, 1, 2)):
            place(rep, 'ack1 %s %s' % (a, b), np.array([[a]], float), np.array([[b]], float))
    elif kind == 'ack2':
        a = np.reshape(case[1], (2, 2)).astype(float)
        for b in itertools.product(D3, repeat=2):
            place(rep, 'ack2 %s %s' % (case[1], b), a, np.reshape(b, (2, 1)).astype(float))
    elif kind in ('ack3', 'ack4'):
        a = (c20.A3 if kind == 'ack3' else A4)[case[1]]
        for b in itertools.product((0, 1), repeat=len(a)):
            place(rep, '%s %d %s' % (kind, case[1], b), a,
                  np.reshape(b, (-1, 1)).astype(float))
    else:
        refusals(rep)


def locations(n):
    """Conjugate-closed multisets of n locations."""
    for q in range(n+1):
        for c in itertools.combinations_with_replacement(LOCS, q):
            out = []
            for x in c:
                z = complex(x)
                out += [z, z.conjugate()] if z.imag else [z.real]
            if len(out) == n:
                yield out


def place(rep, key, a, b):
    rep.state(key)
    rep.trace()
    n = len(a)
    ctr = frank(c20.ctrb(a, b)) == n
    for loc in locations(n):
        forms = [('tuple', (a, b), loc)]
        if n < 4:
            forms += [('state', State(a, b, np.eye(n)), np.array(loc)),
                      ('disc', State(a, b, np.ones((1, n)), dt=.1), tuple(reversed(loc)))]
            forms += [('perm', (a, b), list(p)) for p in itertools.permutations(loc)][1:]
        if n == 2:
            for x in (.3, 1., 2.5):
                t = np.array([[np.cos(x), np.sin(x)], [-np.sin(x), np.cos(x)]])
                forms.append(('turned %g' % x, (t@a@t.T, t@b), loc))
        if all(not isinstance(z, complex) and z == int(z) for z in loc):
            forms.append(('int', (a, b), [int(z) for z in loc]))
        for nm, g, lc in forms:
            rep.step()
            k = '%s %s %s' % (key, nm, ','.join(str(z) for z in loc))
            r = call(ackermann, g, lc)
            if not ctr:
                if not isinstance(r, Err):
                    return rep.violation(k, 'not refused', 'uncontrollable pair: %r' % r)
                rep.outcome('refused')
                continue
            if isinstance(r, Err):
                return rep.violation(k, 'refused', repr(r))
            if np.shape(r) != (1, n) or np.iscomplexobj(r):
                return rep.violation(k, 'form', repr(r))
            ref = np.real(np.poly(loc))
            got = np.poly(a-b@r if nm[:6] != 'turned' else g[0]-g[1]@r)
            if not rep.close('poles', got, ref, 1e-7, (1+np.abs(r).max())**2
                             * (1+np.abs(ref).max())):
                return rep.violation(k, 'poles', 'closed loop polynomial %s, requested %s' % (
                    got, ref))
            rep.outcome('placed')


def refusals(rep):
    a, b = np.array([[0., 1], [0, 0]]), np.array([[0.], [1]])
    g = State(a, b, np.eye(2))
    for nm, args in (('short', ((a, b), [-1])), ('long', ((a, b), [-1, -2, -3])),
                     ('unpaired', ((a, b), [-1+1j, -1])), ('two up', ((a, b), [1j, 1j])),
                     ('2d', ((a, b), [[-1, -2]])), ('inputs', ((a, np.eye(2)), [-1, -2])),
                     ('inputs state', (State(a, np.eye(2), np.eye(2)), [-1, -2])),
                     ('text', ((a, b), 'ab')), ('shape', ((a, np.ones((3, 1))), [-1, -2]))):
        refuse(rep, 'ackermann ' + nm, ackermann, *args)
    refuse(rep, 'place_poles', place_poles, a, b, [-1, -2], names=('NotImplementedError',))
    for w in ('', 'a', 'states', 'out', 'state, output', ', ', 't'):
        refuse(rep, 'lqr weight %r' % w, lqr, g, np.eye(2), weight_on=w)
    for nm, args, kw in (
            ('gain', (State(3), 1), {}), ('gain matrix', (Transfer(np.eye(2)), np.eye(2)), {}),
            ('q shape', (g, np.eye(3)), {}), ('r shape', (g, np.eye(2), np.eye(2)), {}),
            ('s shape', (g, np.eye(2), [[1]], np.ones((1, 1))), {}),
            ('out q', (g, np.eye(3)), dict(weight_on='output')),
            ('out r', (g, np.eye(2), np.eye(2)), dict(weight_on='output')),
            ('out s', (g, np.eye(2), [[1]], np.ones((1, 2))), dict(weight_on='output')),
            ('out q rect', (g, np.ones((2, 1))), dict(weight_on='output')),
            ('out swapped', (State(a, b, np.eye(2)), [[1]], np.eye(2)), dict(weight_on='output')),
            ('out swapped lists', (State(a, np.eye(2), [[1, 0]]), np.eye(2).tolist(), 1),
             dict(weight_on='output')),
            ('no model', (a, np.eye(2)), {})):
        refuse(rep, 'lqr ' + nm, lqr, *args, **kw)


def refuse(rep, key, f, *a, names=('ValueError', 'TypeError', 'LinAlgError'), **kw):
    rep.step()
    rep.state(key)
    r = call(f, *a, **kw)
    if not isinstance(r, Err) or r.name not in names:
        return rep.violation('refuse ' + key, 'not refused', repr(r))
    rep.outcome('refused')
