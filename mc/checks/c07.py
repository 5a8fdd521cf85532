"""Assignment histories: a model must equal a fresh model built from the same data."""
import itertools
import pickle

import numpy as np

from ..core import call, Err
from harold import (Transfer, State, frequency_response, simulate_step_response, system_norm,
                    transfer_to_state, state_to_transfer)

Q = [[1., 0.5], [0.5, 0.25]]
COMMON = [('SamplingPeriod', None), ('SamplingPeriod', 0.5), ('SamplingPeriod', 2),
          ('SamplingPeriod', -1), ('SamplingPeriod', 'a'),
          ('DiscretizedWith', 'zoh'), ('DiscretizedWith', 'tustin'), ('DiscretizedWith', 'lft'),
          ('DiscretizedWith', 'bogus'), ('DiscretizationMatrix', Q), ('PrewarpFrequency', 0.1),
          ('PrewarpFrequency', 50.)]
SISO = [('num', [1]), ('num', [2, 1]), ('num', 0), ('num', [1, 2, 3]), ('num', 'x'),
        ('num', [[1, 2]]), ('den', [1, 3]), ('den', [1, 2, 5]), ('den', 4), ('den', [1, -1]),
        ('den', 0), ('den', [0, 1, 0]), ('den', [[[1, 2], [1, 3]]])]
MIMO = [('num', [[[1], [2, 1]], [[0], [3]]]), ('num', [[1, 2], [3, 4]]), ('num', [1]),
        ('num', [[1, 2]]), ('num', [[[1, 2, 3, 4], 1], [1, 1]]), ('num', [[1, 'a'], [1, 1]]),
        ('den', [[[1, 2], [1, 3]], [[1, 1], [1, 0]]]), ('den', [1, 2]), ('den', [[1, 2], [4, 5]]),
        ('den', [[1, 0], [1, 1]]), ('den', [[[1, -1], [1, -2]], [[1, 1, 1], [1, 3]]]),
        ('den', [[1], [1]])]
SS1 = [('a', [[0, 1], [-2, -3]]), ('a', [[1, 1], [0, 0.5]]), ('a', 3), ('a', [[1, 2], [3, 'a']]),
       ('a', None), ('b', [[0], [1]]), ('b', [1, 2]), ('b', [[0], [0]]), ('b', [[1, 0], [0, 1]]),
       ('c', [[1, 1]]), ('c', [0, 0]), ('c', [[1], [1]]), ('d', 0), ('d', [[2]]), ('d', None),
       ('d', [[1, 2]]), ('d', np.array([[1j]]))]
SS2 = [('a', -np.eye(3)), ('a', [[0, 1, 0], [0, 0, 1], [-6, -11, -6]]), ('a', np.ones((3, 3))),
       ('a', np.ones((2, 2))), ('b', np.ones((3, 2))), ('b', np.eye(3)[:, :2]), ('b', np.eye(3)),
       ('c', np.ones((2, 3))), ('c', np.eye(3)[1:]), ('c', np.ones(3)), ('d', np.eye(2)),
       ('d', np.ones((2, 2))), ('d', 1), ('d', 'a')]
SSG = [('d', 5), ('d', [[1, 2], [3, 4]]), ('d', np.ones((3, 3))), ('a', [[1]]), ('b', [[1]]),
       ('c', None), ('d', None)]
INIT = {
    't1': (lambda: Transfer([1, 2], [1, 3, 2]), SISO), 't1d': (lambda: Transfer(1, [1, 0.5], 0.5), SISO),
    'tk': (lambda: Transfer(3, 2), SISO), 'ti': (lambda: Transfer([2, 0], [1, 0], 2), SISO),
    't22': (lambda: Transfer([[1, [1, 2]], [0, 3]], [[[1, 2], [1, 5]], [1, [1, 3, 2]]]), MIMO),
    't22k': (lambda: Transfer([[1, 2], [3, 4]], dt=0.5), MIMO),
    's1': (lambda: State([[0, 1], [-1, -2]], [[1], [1]], [[1, 0]], 0), SS1),
    's1d': (lambda: State([[0, 0.5], [-0.1, 0.2]], [[1], [0]], [[1, 2]], 1, 0.5), SS1),
    's22': (lambda: State(np.diag([-1., -2, -3]), np.ones((3, 2)), np.ones((2, 3)), np.zeros((2, 2))),
            SS2),
    'sk': (lambda: State(3), SSG), 'sk22': (lambda: State([[1, 2], [3, 5]], dt=0.5), SSG),
}
BOUNDS = {'quick': 'all assignment sequences of length 1-3 for %d initial models over %d-%d '
          'assignments each (accepted and refused)' % (
              len(INIT), len(SSG)+len(COMMON), len(SS1)+len(COMMON)),
          'thorough': 'all sequences of length 1-4 over the data assignments and sampling periods, '
          'length 1-3 over everything'}
ASSUMPTIONS = ['whether the discretization notes survive a passage through continuous time is not '
               'specified: both readings are accepted',
               'an assignment may be refused although a fresh model would accept the data; it '
               'then has to leave the model unchanged']
CHUNK = 1


def cases(tier):
    out = []
    for name, (_, acts) in INIT.items():
        al = len(acts) + len(COMMON)
        out.append([name, 1, []])
        out.append([name, 2, []])
        for i in range(al):
            out.append([name, 3, [i]])
        if tier != 'quick':
            sub = list(range(len(acts))) + [len(acts)+k for k in range(4)]
            for i in sub:
                for j in sub:
                    out.append([name, 4, [i, j]])
    return out


def flat(x):
    """Canonical nested tuple of floats, strings, None."""
    if isinstance(x, Err):
        return ('raised',)
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (State, Transfer)):
        return (type(x).__name__, flat(x.SamplingPeriod), flat(data(x)))
    if isinstance(x, (list, tuple)):
        return tuple(flat(y) for y in x)
    a = np.asarray(x)
    return ('arr', a.shape, a.astype(complex))


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) == 3 and x[:1] == ('arr',) and y[:1] == ('arr',):
            return x[1] == y[1] and np.allclose(x[2], y[2], rtol=1e-8, atol=1e-10, equal_nan=True)
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return x is y or x == y


def data(g):
    return g.matrices if isinstance(g, State) else g.polynomials


T5 = np.arange(5)


def obs(g):
    """Everything a user can see, exceptions included."""
    dt = g.SamplingPeriod
    o = {
        'data': data(g), 'shape': tuple(g.shape), 'period': dt, 'set': g.SamplingSet,
        'channels': (g.NumberOfInputs, g.NumberOfOutputs),
        'poles': np.ravel(g.poles), 'zeros': np.ravel(g.zeros), 'repr': call(repr, g),
        'table': call(g.pole_properties), 'dcgain': call(lambda: g.dcgain),
        'array': call(g.to_array),
        'freq': call(frequency_response, g, [0.3, 1.1]),
        'step': call(simulate_step_response, g, T5*(dt or 0.2)),
        'norm': call(system_norm, g, 2),
        'sum': call(lambda: g+1), 'inv': call(lambda: 1/g), 'scaled': call(lambda: g*2),
        'entry': call(lambda: g[0, 0]),
        'convert': call(state_to_transfer if isinstance(g, State) else transfer_to_state, g)}
    if isinstance(g, State):
        o['states'] = g.NumberOfStates
    return {k: flat(v) for k, v in o.items()}


def notes(g):
    return tuple(flat(call(lambda: getattr(g, k)))
                 for k in ('DiscretizedWith', 'DiscretizationMatrix', 'PrewarpFrequency'))


CACHE = {}
SEEN = set()


def fresh(kind, dat, dt):
    if kind == 'T':
        return Transfer(dat[0], dat[1], dt)
    a, b, c, d = dat
    return State(d, dt=dt) if np.size(a) == 0 else State(a, b, c, d, dt)


def fresh_obs(kind, dat, dt):
    key = (kind, repr(dat), dt)
    if key not in CACHE:
        CACHE[key] = obs(fresh(kind, dat, dt))
    return CACHE[key]


def fresh_notes(kind, dat, dt, nt):
    """Readings of a fresh model with the notes assigned; None if it cannot carry them."""
    g = fresh(kind, dat, dt)
    m, q, w = nt
    try:
        if m is not None and dt is not None:
            g.DiscretizedWith = m
            if q is not None and m == 'lft':
                g.DiscretizationMatrix = q
            if w is not None and m in ('tustin', 'bilinear', 'trapezoidal'):
                g.PrewarpFrequency = w
    except Exception:
        return None
    return notes(g)


def copy(d):
    return tuple([[np.array(y) for y in r] for r in x] if isinstance(x, list) else np.array(x)
                 for x in d)


def run(case, rep):
    name, length, prefix = case
    make, acts = INIT[name]
    al = acts + COMMON
    ids = range(len(al))
    if length == 4:
        sub = list(range(len(acts))) + [len(acts)+k for k in range(4)]
        tails = itertools.product(sub, repeat=2)
    else:
        tails = itertools.product(ids, repeat=length-len(prefix))
    for tail in tails:
        seq = list(prefix) + list(tail)
        one(name, make, al, seq, rep)


def one(name, make, al, seq, rep):
    g = make()
    kind = 'S' if isinstance(g, State) else 'T'
    dat, dt = copy(data(g)), g.SamplingPeriod
    cand = [(None, None, None)]          # admissible readings of the notes' history
    key = name
    for i in seq:
        attr, val = al[i]
        key += ' %s=%s' % (attr, str(val.tolist() if isinstance(val, np.ndarray) else val
                                     ).replace(' ', ''))
        rep.step()
        r = call(setattr, g, attr, val)
        ok = not isinstance(r, Err)
        # reference transition
        if attr == 'SamplingPeriod':
            legal = val is None or (not isinstance(val, str) and val > 0)
            if ok and legal:
                dt = None if val is None else float(val)
                if val is None:
                    cand = cand + [(None, None, None)]
            must = legal
        elif attr in ('num', 'den', 'a', 'b', 'c', 'd'):
            def build():
                if kind == 'T':
                    return Transfer(*((val, dat[1]) if attr == 'num' else (dat[0], val)))
                new = list(dat)
                new['abcd'.index(attr)] = val
                if np.size(dat[0]) == 0 and attr != 'd':
                    raise ValueError
                return State(new[3]) if np.size(new[0]) == 0 else State(*new)
            f = call(build)
            legal = not isinstance(f, Err) and tuple(f.shape) == tuple(g.shape)
            must = legal and kind == 'T'
            if ok and legal:
                dat = copy(data(f))
        elif attr == 'DiscretizedWith':
            legal = dt is not None and val != 'bogus'
            must = legal
            if ok and legal:
                cand = [(val, c[1], c[2]) for c in cand]
        elif attr == 'DiscretizationMatrix':
            must = False
            legal = any(c[0] == 'lft' for c in cand)
            if ok and legal:
                cand = [(c[0], val, c[2]) for c in cand if c[0] == 'lft']
        else:
            must = False
            legal = any(c[0] == 'tustin' for c in cand) and dt is not None and val <= 1/(2*dt)
            if ok and legal:
                cand = [(c[0], c[1], val) for c in cand if c[0] == 'tustin']
        if ok and not legal:
            rep.violation(key, 'accepted', 'assignment %s = %s should be refused' % (attr, val))
            return
        if not ok and must:
            rep.violation(key, 'refused', 'assignment %s = %s: %r' % (attr, val, r))
            return
    rep.trace()
    rep.state(key)
    rep.outcome('last %s' % ('accepted' if ok else 'refused ' + r.name))
    # every observation is a function of the object's complete internal state, so one object state
    # already found equal to the fresh model of the same data is not observed a second time
    try:
        memo = (pickle.dumps(vars(g)), repr(dat), dt)
    except Exception:
        memo = None
    if memo is None or memo not in SEEN:
        ref = fresh_obs(kind, dat, dt)
        got = obs(g)
        for k in ref:
            if not same(got[k], ref[k]):
                rep.violation(key, 'stale:' + k, '%s differs from that of a fresh model: %s, '
                              'fresh %s' % (k, str(got[k])[:160], str(ref[k])[:160]))
                return
        if memo is not None:
            SEEN.add(memo)
    nts = [fresh_notes(kind, dat, dt, c) for c in cand]
    mine = notes(g)
    if None not in nts and not any(same(mine, x) for x in nts):
        rep.violation(key, 'stale:notes', 'discretization notes read %s, fresh model %s'
                      % (mine, nts))
