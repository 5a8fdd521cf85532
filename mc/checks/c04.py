"""Sampling periods: every model-to-model operation keeps them, mismatches are refused."""
import numpy as np

from ..core import call, Err
from .. import alpha
from ..algebra import OPS
from ..ref import model_state
from harold import (Transfer, State, feedback, transfer_to_state, state_to_transfer,
                    minimal_realization, hessenberg_realization, kalman_decomposition)

DTS = [None, 0.5, 1., 0.1]
MODELS = ['t_kq', 't_bn', 't_cx', 't_z1', 't12_k', 't12_d', 't21_d', 't22_k', 't22_b', 't22_d',
          't23_d', 's_k3', 's_bp', 's_2', 's_u', 's12_k', 's12_d', 's21_d', 's22_k', 's22_b',
          's22_n', 's22_d', 's23_d', 's33_d']
QUICK_CHAIN = ['t_kq', 't_bn', 't12_k', 't22_k', 't22_b', 't21_d', 's_k3', 's_bp', 's22_k',
               's22_b', 's12_d', 's23_d']
BOUNDS = dict(quick='%d models x %d periods x all unary operations and all pairs of them in '
              'sequence (chains over %d models); all ordered model pairs x 16 ordered period pairs '
              'x 5 operators and feedback' % (len(MODELS), len(DTS), len(QUICK_CHAIN)),
              thorough='chains over all models, chains of three over the short list')
ASSUMPTIONS = ['an operation that refuses its operand for other reasons (no inverse, wrong '
               'representation) is not judged here']


def one(x):
    return np.ones(x)


UNARY = {
    'neg': lambda g: -g,
    '*2': lambda g: g*2,
    '2*': lambda g: 2*g,
    '*0': lambda g: g*0,
    '+1': lambda g: g+1,
    '1-': lambda g: 1-g,
    '/2': lambda g: g/2,
    '1/': lambda g: 1/g,
    '+arr': lambda g: g + one(g.shape),
    'arr@': lambda g: one((2, g.shape[0])) @ g,
    '@arr': lambda g: g @ one((g.shape[1], 2)),
    '+self': lambda g: g+g,
    '@self': lambda g: g @ g,
    'tf2ss': lambda g: transfer_to_state(g),
    'ss2tf': lambda g: state_to_transfer(g),
    '[0,0]': lambda g: g[0, 0],
    '[:,0]': lambda g: g[:, 0],
    '[-1]': lambda g: g[-1],
    '[::-1]': lambda g: g[::-1, ::-1],
    'min': lambda g: minimal_realization(g),
    'hess': lambda g: hessenberg_realization(g),
    'hesso': lambda g: hessenberg_realization(g, form='o'),
    'kalman': lambda g: kalman_decomposition(g),
    'fb+': lambda g: feedback(g, one(g.shape[::-1]), negative=False),
    'fb-': lambda g: feedback(g, 0.25*one(g.shape[::-1])),
    'fbr': lambda g: feedback(one(g.shape[::-1]), g),
    'fbs': lambda g: feedback(g, g),
}
# the sampling period must come out whenever these apply: (kind, needs) that must not fail
ALWAYS = ['neg', '*2', '2*', '*0', '+1', '1-', '/2', '+arr', 'arr@', '@arr', '+self', '[0,0]',
          '[:,0]', '[-1]', '[::-1]', 'min']
ALWAYS_KIND = {'T': ['tf2ss'], 'S': ['ss2tf', 'kalman', 'hess', 'hesso']}
BIN = dict(OPS)
BIN['fb'] = lambda x, y: feedback(x, y)
BIN['fbp'] = lambda x, y: feedback(x, y, negative=False)


def cases(tier):
    out = []
    for m in MODELS:
        for k in range(len(DTS)):
            for u in UNARY:
                out.append(['un', m, k, u])
    for x in MODELS:
        for y in MODELS:
            for i in range(len(DTS)):
                out.append(['bin', x, y, i])
    for m in (QUICK_CHAIN if tier == 'quick' else MODELS):
        for k in range(len(DTS)) if tier != 'quick' else (0, 1):
            for u in UNARY:
                out.append(['chain', m, k, u])
    if tier != 'quick':
        for m in QUICK_CHAIN:
            for u in UNARY:
                for v in UNARY:
                    out.append(['chain3', m, 1, u, v])
    return out


def period_ok(rep, key, g, dt, what='period'):
    rep.trace()
    if isinstance(g, tuple):
        g = g[0]
    if not isinstance(g, (State, Transfer)):
        rep.violation(key, 'kind', 'not a model: %s' % type(g).__name__)
        return False
    rep.state(*model_state(g))
    if g.SamplingPeriod != dt or g.SamplingSet != ('R' if dt is None else 'Z'):
        rep.violation(key, what, 'operands have period %s, result has %s (%s)'
                      % (dt, g.SamplingPeriod, g.SamplingSet))
        return False
    rep.outcome('%s dt=%s' % (type(g).__name__, dt))
    return True


def small(g):
    """Keep chains from growing without bound."""
    if isinstance(g, State):
        return g.NumberOfStates <= 12
    d = g.den if isinstance(g.den, list) else [[g.den]]
    return max(x.size for r in d for x in r) <= 9 and max(g.shape) <= 3


def run(case, rep):
    what, m = case[:2]
    if what == 'bin':
        x, y, i = case[1:]
        gx = alpha.ALL[x].build(DTS[i])
        for j, dj in enumerate(DTS):
            gy = alpha.ALL[y].build(dj)
            for o, f in BIN.items():
                key = 'bin %s %s %s dt %s %s' % (x, o, y, DTS[i], dj)
                rep.step()
                r = call(f, gx, gy)
                if isinstance(r, Err):
                    rep.trace()
                    rep.outcome('raise:' + r.name)
                elif DTS[i] != dj:
                    rep.trace()
                    rep.violation(key, 'mismatch-accepted', 'periods %s and %s were combined to %s'
                                  % (DTS[i], dj, type(r).__name__))
                else:
                    period_ok(rep, key, r, dj)
        return
    k = case[2]
    dt = DTS[k]
    g = alpha.ALL[m].build(dt)
    seq = case[3:]
    name = '%s %s dt=%s' % (what, m, dt)
    for u in seq:
        name += ' ' + u
        rep.step()
        r = call(UNARY[u], g)
        if isinstance(r, Err):
            rep.outcome('raise:' + r.name)
            if what == 'un':
                rep.trace()
                kind = 'T' if isinstance(g, Transfer) else 'S'
                if u in ALWAYS or u in ALWAYS_KIND[kind]:
                    rep.violation(name, 'raises', 'no model came back: %r' % r)
            return
        if not period_ok(rep, name, r, dt):
            return
        g = r
    if what == 'un' or not small(g):
        return
    for v in UNARY:
        rep.step()
        r = call(UNARY[v], g)
        if isinstance(r, Err):
            rep.outcome('raise:' + r.name)
            continue
        period_ok(rep, name + ' ' + v, r, dt)
