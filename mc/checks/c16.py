"""Simulation: every short input sequence against own recursions."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, model_state
from ..sampled import gammas, realize
from harold import simulate_linear_system

MODELS = {k: alpha.ALL[k] for k in list(alpha.TRANSFERS) + list(alpha.STATES)}
MODELS['s_un'] = Ss([[1, 1], [0, 0.5]], [[0], [1]], [[1, 0]], [[0]])
MODELS['s_osc'] = Ss([[0, 2], [-2, 0]], [[0], [1]], [[1, 0]], [[1]])
MODELS['s_1'] = Ss([[-0.5]], [[2]], [[3]], [[0]])
MODELS['s_3h'] = Ss(np.diag([-1., 0.5, 0.25]), [[1], [0], [1]], [[1, 1, 0]], [[2]])
MODELS['s21_1'] = Ss([[-0.5]], [[2]], [[3], [1]], [[0], [1]])
MODELS['s12_x'] = Ss([[-0.5]], [[2, 1]], [[3]], [[0, 1]])
BIG = [k for k, s in MODELS.items() if s.shape[1] > 2]
BOUNDS = {
    'quick': '%d models (both kinds, static and dynamic, 1x1..3x3) x continuous (steps 0.1, 1) and '
             'discrete (periods 0.5, 2): every input sequence over {-1,0,1} of length 1-4 for one '
             'input, 1-2 for two, 1 for three inputs (length 2 to 4 unit impulses for the rest) x '
             'initial state none or mixed; for sequences of at most 3 numbers also zero and unit '
             'initial states, per-channel on/off, input layouts (list, 1-D, column, row, Fortran, '
             'integer), time omitted, given or shifted; refused arguments' % len(MODELS),
    'thorough': 'as quick with sequences of length 5 for one input and 3 for two inputs, step 0.01'}
ASSUMPTIONS = ['the input of a continuous model is held constant between samples',
               'with an initial state every channel of a per-channel response starts from it']
CHUNK = 1


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in MODELS:
        for dt, step in ((None, 0.1), (None, 1.), (0.5, 0.5), (2., 2.)) + (
                () if q else ((None, 0.01), (0.1, 0.1))):
            out.append([k, dt, step, tier])
    return out + [['refuse', None, 0, tier]]


def recursion(spec, step):
    """Difference equation matrices of each model, own realization."""
    if isinstance(spec, Ss):
        a, b, c, d = spec.a, spec.b, spec.c, spec.d
        n = spec.n
    else:
        p, m = spec.shape
        blocks = [[realize(*spec.e[i][j]) for j in range(m)] for i in range(p)]
        n = sum(x[0].shape[0] for r in blocks for x in r)
        a, b, c = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n))
        d = np.zeros((p, m))
        k = 0
        for i in range(p):
            for j in range(m):
                ai, bi, ci, di = blocks[i][j]
                q = ai.shape[0]
                a[k:k+q, k:k+q] = ai
                b[k:k+q, j] = np.ravel(bi)
                c[i, k:k+q] = np.ravel(ci)
                d[i, j] = np.ravel(di)[0]
                k += q
    if spec.dt is None and n:
        phi, g1, _ = gammas(a, step)
        a, b = phi, g1 @ b
    return a, b, c, d


def response(abcd, u, x0):
    a, b, c, d = abcd
    x = np.zeros(a.shape[0]) if x0 is None else np.ravel(np.array(x0, float))
    y = []
    for v in u:
        y.append(c @ x + d @ v)
        x = a @ x + b @ v
    return np.array(y)


def sequences(m, tier):
    """Input sequences as (N, m) arrays."""
    full = {1: 4, 2: 2, 3: 1}[m] + (1 if tier == 'thorough' and m < 3 else 0)
    for n in range(1, full+1):
        for v in itertools.product((-1., 0., 1.), repeat=n*m):
            yield np.reshape(v, (n, m))
    for n in range(full+1, 6):
        for i in range(n):
            for j in range(m):
                u = np.zeros((n, m))
                u[i, j] = 1
                yield u
        yield np.arange(1., n*m+1).reshape(n, m)


def judge(rep, key, g, spec, abcd, u, arg, t, x0, per):
    rep.trace()
    rep.step(len(u))
    rep.state(key)
    kw = {}
    if t is not None:
        kw['t'] = t
    if x0 is not None:
        kw['x0'] = x0
    if per:
        kw['per_channel'] = True
    r = call(simulate_linear_system, g, arg, **kw)
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    p, m = spec.shape
    N = len(u)
    y, tt = (np.asarray(x) for x in r)
    tref = np.arange(N)*(spec.dt or 0) if t is None else np.ravel(np.asarray(t, float))
    if tt.shape != (N,) or not np.allclose(tt, tref, rtol=1e-12, atol=1e-12):
        return rep.violation(key, 'time', 'time %s' % (tt,))
    if per and m > 1:
        ref = np.stack([response(abcd, np.where(np.arange(m) == k, u, 0.), x0) for k in range(m)],
                       axis=2)
    else:
        ref = response(abcd, u, x0)
    ok = y.shape == ref.shape or (p == 1 and m == 1 and y.shape == (N,))
    if not ok:
        return rep.violation(key, 'shape', 'output %s instead of %s' % (y.shape, ref.shape))
    if not rep.close('output', y.reshape(ref.shape), ref, 1e-8, scale=1+np.abs(ref).max()):
        return rep.violation(key, 'output', 'output %s instead of %s' % (
            y.ravel()[:6], ref.ravel()[:6]))
    rep.outcome('%s%s%s' % ('gain' if spec.gain else spec.kind, ' per channel' if per else '',
                            ' x0' if x0 is not None else ''))


def layouts(u):
    yield 'array', u.copy()
    yield 'fortran', np.asfortranarray(u)
    yield 'list', u.tolist()
    if u.shape[1] == 1:
        yield 'flat', u[:, 0].copy()
        yield 'flat list', u[:, 0].tolist()
        yield 'row', u.T.copy()
    if np.array_equal(u, u.astype(int)):
        yield 'int', u.astype(int)


def run(case, rep):
    name, dt, step, tier = case
    if name == 'refuse':
        return refuse(rep)
    spec = MODELS[name].with_dt(dt)
    g = spec.build()
    before = model_state(g)
    abcd = recursion(spec, step)
    n, m = abcd[0].shape[0], spec.shape[1]
    x0s = [None]
    if isinstance(spec, Ss) and n:
        x0s += [np.zeros(n)] + list(np.eye(n)) + [np.arange(1., n+1)*(-1)**np.arange(n)]
    for u in sequences(m, tier):
        N = len(u)
        short = N*m <= 3
        ts = [('shift', np.arange(N)*step+2.), ('given', np.arange(N)*step)]
        if dt is not None:
            ts = [('none', None)] + ts
        if N == 1:
            # a single sample defines no time increment
            if dt is None:
                continue
            ts = ts[:1]
        tag = '%s dt=%s step=%s %s' % (name, dt, step, ' '.join('%g' % v for v in u.ravel()))
        for tn, t in ts if short else ts[:1]:
            for ix, x0 in enumerate(x0s if short else x0s[:1] + x0s[-1:]*(len(x0s) > 1)):
                for per in (False, True) if m > 1 or short else (False,):
                    judge(rep, '%s n%d t=%s x%d per=%d' % (tag, N, tn, ix, per), g, spec, abcd, u,
                          u.copy(), t, x0, per)
        if short or u.max() > 1:
            tn, t = ts[0]
            for ln, arg in layouts(u):
                judge(rep, '%s n%d %s' % (tag, N, ln), g, spec, abcd, u, arg, t, None, False)
            if t is not None:
                judge(rep, '%s n%d tlist' % (tag, N), g, spec, abcd, u, u.copy(), t.tolist(), None,
                      False)
                judge(rep, '%s n%d trow' % (tag, N), g, spec, abcd, u, u.copy(), t[None, :], None,
                      False)
            for x0 in x0s[-1:]:
                if x0 is not None:
                    judge(rep, '%s n%d x0list' % (tag, N), g, spec, abcd, u, u.copy(), t,
                          x0.tolist(), False)
                    judge(rep, '%s n%d x0col' % (tag, N), g, spec, abcd, u, u.copy(), t,
                          x0[:, None], False) if n > 1 else None
    if model_state(g) != before:
        rep.violation('%s dt=%s' % (name, dt), 'mutated', 'the model was changed')


def refuse(rep):
    for k in ('t_p1', 's_2', 't_k3', 's_k3', 's22_d', 't22_d', 's22_k', 's12_d', 's21_d'):
        for dt in (None, 0.5):
            spec = MODELS[k].with_dt(dt)
            g = spec.build()
            m = spec.shape[1]
            n = 0 if spec.gain else (g.NumberOfStates if spec.kind == 'S' else 0)
            t4 = np.arange(4)*0.5
            u4 = np.ones((4, m))
            bad = {'cols': (np.ones((4, m+1)), t4, None), 'len': (np.ones((5, m)), t4, None),
                   'uneven': (u4, np.array([0, 0.5, 1., 1.7]), None),
                   'uneven small': (u4, np.array([0, 0.5, 1., 1.7])*1e-8, None),
                   'decreasing': (u4, t4[::-1], None), 'constant': (u4, np.zeros(4), None),
                   'text': ([['a']*m]*4, t4, None), 'complex time': (u4, np.ones((2, 2)), None)}
            if m > 1:
                bad['flat'] = (np.ones(4), t4, None)
                bad['fewer'] = (np.ones((4, m-1)), t4, None)
            if dt is None:
                bad['no time'] = (u4, None, None)
            else:
                bad['other step'] = (u4, t4*0.8, None)
                bad['other step 2'] = (u4, t4*2, None)
            if n:
                bad['x0 long'] = (u4, t4, np.ones(n+1))
                bad['x0 short'] = (u4, t4, np.ones(n-1)) if n > 1 else (u4, t4, [])
                bad['x0 matrix'] = (u4, t4, np.ones((2, 2)))
            else:
                bad['x0 without states'] = (u4, t4, np.ones(1))
                bad['x0 without states 2'] = (u4, t4, np.zeros(2))
            for b, (u, t, x0) in bad.items():
                key = 'refuse %s dt=%s %s' % (k, dt, b)
                rep.trace()
                rep.step()
                rep.state(key)
                r = call(simulate_linear_system, g, u, t=t, x0=x0)
                if not isinstance(r, Err):
                    rep.violation(key, 'accepted', 'returned %s' % (np.ravel(r[0])[:4],))
                else:
                    rep.outcome('refused')
    gd = Ss([[0.5]], [[1]], [[1]], [[0]], 2e-9).build()
    rep.step()
    r = call(simulate_linear_system, gd, np.ones(4), t=np.arange(4)*1e-9)
    if not isinstance(r, Err):
        rep.violation('refuse small period', 'accepted', 'wrong increment for a small period')
