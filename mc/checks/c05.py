"""Conversions between Transfer and State in all output forms and round trips."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, obj_values, obj_inf, same_values, good, model_state
from harold import Transfer, State, transfer_to_state, state_to_transfer

E = dict(alpha.E)
E.update(fc=([3, 6], [1, 2]), fm=([1, 2], [-2, -4]), lz=([0, 0, 2], [0, 1, 4]),
         i2=([1], [1, 0, 0]), ic=([1, 0], [1, 0, 0]), nm=([2, 3], [4, 0, 8]),
         mz=([0], [3]), d3=([1, 0, 2], [1, 3, 3, 1]), bi=([1, 5, 6], [1, 3, 2]))
E1 = list(E)
E12 = ['k0', 'k3', 'kq', 'z1', 'mz', 'p1', 'p2', 'bp', 'bn', 'dd', 'rp', 'it', 'fc', 'fm', 'cx',
       'nm', 'i2', 'ic', 'd3', 'bi', 'lz', 'ca']
E22 = ['k0', 'kq', 'z1', 'p1', 'bn', 'dd', 'fc', 'it']
E22T = E22 + ['p2', 'rp', 'cx']
E23 = ['k0', 'kq', 'p1', 'bn']
E23T = ['k0', 'kq', 'z1', 'p1', 'bn', 'dd']
E13 = ['k0', 'k3', 'z1', 'p1', 'bn', 'dd', 'rp', 'fm', 'it', 'nm']
BOUNDS = {}
for _t, _e22, _e23 in (('quick', E22, E23), ('thorough', E22T, E23T)):
    BOUNDS[_t] = ('transfer matrices: all %d single entries, all 1x2/2x1 over %d, all 1x3/3x1 over '
                  '%d, all 2x2 over %d, all 2x3/3x2 over %d entries; state models with entries in '
                  '{-1,0,1}: all with 1 state up to 2x1/1x2%s, all with 2 states 1x1, plus the '
                  'named alphabet' % (len(E1), len(E12), len(E13), len(_e22), len(_e23),
                                      ' and 2x2' if _t == 'thorough' else ''))
ASSUMPTIONS = ['values compared on 15 complex points and at infinity, relative tolerance 1e-6']
CHUNK = 8


def block(shape, names, first):
    """All matrices of the shape whose first entries are given, as lists of names."""
    p, m = shape
    for rest in itertools.product(names, repeat=p*m-len(first)):
        e = list(first) + list(rest)
        yield [e[i*m:(i+1)*m] for i in range(p)]


def cases(tier):
    q = tier == 'quick'
    out = [['t', [1, 1], E1, []], ['t', [1, 2], E12, []], ['t', [2, 1], E12, []]]
    for s in ([1, 3], [3, 1]):
        out += [['t', s, E13, [x]] for x in E13]
    e22 = E22 if q else E22T
    out += [['t', [2, 2], e22, [x, y]] for x in e22 for y in e22]
    e23 = E23 if q else E23T
    for s in ([2, 3], [3, 2]):
        out += [['t', s, e23, [x, y]] for x in e23 for y in e23]
    out += [['names', list(alpha.STATES)]]
    D = (-1, 0, 1)
    for n, p, m in [(1, 1, 1), (1, 1, 2), (1, 2, 1)] + ([] if q else [(1, 2, 2)]):
        out += [['s', n, p, m, [a]] for a in D]
    out += [['s', 2, 1, 1, list(a)] for a in itertools.product(D, repeat=4)]
    return out


def same(rep, key, sig, got, spec_v, dt, what, shape, cls=None):
    if isinstance(got, Err):
        rep.violation(key, sig + ':raises', repr(got))
        return False
    rep.trace()
    if cls is not None and not isinstance(got, cls):
        rep.violation(key, sig + ':kind', 'got a %s' % type(got).__name__)
        return False
    if tuple(got.shape) != shape or got.SamplingPeriod != dt:
        rep.violation(key, sig + ':shape', 'shape %s period %s instead of %s %s'
                      % (got.shape, got.SamplingPeriod, shape, dt))
        return False
    rep.state(*model_state(got))
    v = np.concatenate((obj_values(got), obj_inf(got)[None]))
    if not same_values(rep, what, v, spec_v):
        rep.violation(key, sig + ':value', 'entries changed')
        return False
    return True


def from_mats(mats, dt):
    a, b, c, d = mats
    return State(d, dt=dt) if np.size(a) == 0 else State(a, b, c, d, dt=dt)


def forward(rep, key, spec, g, dt):
    """Transfer -> State, matrices output, tuple input, round trip."""
    v = np.concatenate((spec.values(), spec.inf()[None]))
    rep.step(3)
    s = call(transfer_to_state, g)
    if not same(rep, key, 'tf2ss', s, v, dt, 'tf2ss', spec.shape, State):
        return
    rep.outcome('%d states' % s.NumberOfStates)
    mats = call(transfer_to_state, g, output='matrices')
    if isinstance(mats, Err):
        rep.violation(key, 'tf2ss-matrices:raises', repr(mats))
    else:
        m = call(from_mats, mats, dt)
        same(rep, key, 'tf2ss-matrices', m, v, dt, 'tf2ss', spec.shape, State)
    tup = call(transfer_to_state, (g.num, g.den))
    same(rep, key, 'tf2ss-tuple', tup, v, None, 'tf2ss', spec.shape, State)
    rep.step()
    back = call(state_to_transfer, s)
    same(rep, key, 'roundtrip', back, v, dt, 'roundtrip', spec.shape, Transfer)
    same(rep, key, 'unchanged', call(state_to_transfer, g), v, dt, 'same', spec.shape, Transfer)


def polys(num, den, shape):
    """A model from the polynomial output: lists of lists, a pair of rows, or gain arrays."""
    if isinstance(num, list):
        return Transfer(num, den)
    num, den = np.asarray(num), np.asarray(den)
    if shape != (1, 1):
        if num.shape != shape or den.shape != shape:
            raise ValueError('polynomials do not fit the shape')
        return Transfer((num/den).tolist())
    return Transfer(num, den)


def backward(rep, key, spec, g, dt):
    v = np.concatenate((spec.values(), spec.inf()[None]))
    rep.step(2)
    t = call(state_to_transfer, g)
    if not same(rep, key, 'ss2tf', t, v, dt, 'ss2tf', spec.shape, Transfer):
        return
    d = t.den if isinstance(t.den, list) else [[t.den]]
    rep.outcome('degree %d' % max(x.size-1 for r in d for x in r))
    pol = call(state_to_transfer, g, output='polynomials')
    m = pol if isinstance(pol, Err) else call(polys, pol[0], pol[1], spec.shape)
    same(rep, key, 'ss2tf-poly', m, v, None, 'ss2tf', spec.shape, Transfer)
    tup = call(state_to_transfer, g.matrices)
    same(rep, key, 'ss2tf-tuple', tup, v, None, 'ss2tf', spec.shape, Transfer)
    rep.step()
    same(rep, key, 'roundtrip', call(transfer_to_state, t), v, dt, 'roundtrip', spec.shape, State)
    same(rep, key, 'unchanged', call(transfer_to_state, g), v, dt, 'same', spec.shape, State)


def run(case, rep):
    if case[0] == 't':
        shape, names, first = case[1:]
        for rows in block(tuple(shape), names, first):
            spec = Tf([[E[x] for x in r] for r in rows])
            key = 'tf ' + ';'.join(','.join(r) for r in rows)
            dt = 0.5 if rows[0][0] in ('kq', 'bn') else None
            g = call(spec.build, dt)
            rep.state('t', rows)
            if isinstance(g, Err):
                rep.violation(key, 'build', repr(g))
                continue
            forward(rep, key, spec, g, dt)
        return
    if case[0] == 'names':
        for n in case[1]:
            for dt in (None, 0.5):
                backward(rep, 'ss %s %s' % (n, dt), alpha.STATES[n], alpha.STATES[n].build(dt), dt)
        return
    n, p, m, a = case[1:]
    for rest in itertools.product((-1, 0, 1), repeat=n*m+n*p+p*m):
        b, c, d = rest[:n*m], rest[n*m:n*m+n*p], rest[n*m+n*p:]
        spec = Ss(np.reshape(a, (n, n)), np.reshape(b, (n, m)), np.reshape(c, (p, n)),
                  np.reshape(d, (p, m)))
        key = 'ss %d,%d,%d a=%s b=%s c=%s d=%s' % (n, p, m, *[','.join(map(str, x))
                                                          for x in (a, b, c, d)])
        rep.state('s', n, p, m, a, rest)
        g = spec.build(None)
        backward(rep, key, spec, g, None)
