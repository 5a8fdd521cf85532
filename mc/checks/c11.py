"""Discretization against the definition of each method."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, PTS, obj_values, same_values, model_state, good
from ..sampled import METHODS, TUSTIN, sampled_values
from harold import Transfer, State, discretize

E = dict(alpha.E)
E.update(i2=([1], [1, 0, 0]), fc=([2, 4], [1, 2]), fk=([3, 0], [2, 0]), un=([1, 1], [1, -1]),
         osc=([2], [1, 0, 4]), fast=([30], [1, 30]), slow=([1], [100, 1]), p4=([1], [1, 4, 6, 4, 1]),
         u2=([1], [1, -2]))
MODELS = dict(alpha.TRANSFERS)
MODELS.update(alpha.STATES)
for _k in ('i2', 'fc', 'fk', 'un', 'osc', 'fast', 'slow', 'p4', 'u2', 'rp', 'sh', 'q4'):
    MODELS['e_' + _k] = Tf([[E[_k]]])
MODELS['e22_i'] = Tf([[E['it'], E['k3']], [E['fc'], E['osc']]])
MODELS['e12_f'] = Tf([[E['fc'], E['fk']]])
MODELS['s_ch'] = Ss([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0], [0], [1]], [[1, 0, 0]], [[1]])
MODELS['s_osc'] = Ss([[0, 2], [-2, 0]], [[0], [1]], [[1, 0]], [[0]])
MODELS['s_un'] = Ss([[1, 1], [0, 0.5]], [[0], [1]], [[1, 0]], [[0]])
MODELS['s_4'] = Ss([[-1, 1, 0, 0], [0, -1, 1, 0], [0, 0, -2, 3], [0, 0, -3, -2]],
                   [[1, 0], [0, 1], [1, 1], [0, 1]], [[1, 0, 1, 0], [0, 1, 0, 1]], [[1, 0], [0, 0]])
MODELS['s_hid'] = Ss([[-1, 0], [0, -1]], [[1], [1]], [[1, -1]], [[2]])
QS = [[[1, 0.5], [0.5, 0.125]], [[1, 1], [0.5, 0]], [[0.5, 2], [1, 0.25]], [[-1, 0.5], [1, 1]],
      [[1, -0.5], [-0.5, 0.25]], [[0, 1], [1, 0]]]
DTS = {'quick': [0.01, 0.1, 0.5, 1, 2], 'thorough': [0.01, 0.1, 0.25, 0.5, 1, 2, 5]}
PRE = [0.01, 0.1, 0.25, 0.4, 0.45, 0.49]
E22 = ['k0', 'k3', 'p1', 'bn', 'it', 'cx', 'fc', 'un']
N22 = {'quick': 4, 'thorough': 8}
BOUNDS = {t: '%d models (both kinds, static, integrators, oscillators, unstable, repeated and '
          'cancelled poles, 1x1..3x3) x all 12 method names and aliases x sampling periods %s, '
          'prewarping at %s of the sampling rate for the bilinear rule, %d interconnections (array '
          'and list); all 2x2, 1x2 and 2x1 transfers over %d entries' % (
              len(MODELS), DTS[t], PRE, len(QS), N22[t]) for t in DTS}
ASSUMPTIONS = ['models with a pole that the method sends to infinity are required to be refused '
               'only when they have a single state', 'values compared on 15 complex points, '
               'relative tolerance 1e-6']
CHUNK = 1


def cases(tier):
    out = [[k, dt] for k in MODELS for dt in DTS[tier]] + [['refuse', 0]]
    n = E22[:N22[tier]] if tier != 'quick' else ['k3', 'bn', 'it', 'fc']
    for shape in ((1, 2), (2, 1), (2, 2)):
        for e in itertools.product(n, repeat=shape[0]*shape[1]):
            out.append(['t%d%d:' % shape + ','.join(e), 0.5])
    return out


def refuse(rep):
    bad = []
    for k in ('t_p1', 's_2', 't22_d', 's22_d', 't_k3', 's_k3', 't22_k', 's22_k', 't_bp', 's_bp'):
        g = MODELS[k].build()
        gd = MODELS[k].with_dt(0.5).build()
        for m in METHODS + ('lft',):
            bad.append((k + ' discrete ' + m, lambda gd=gd, m=m: discretize(gd, 0.5, m, q=QS[0])))
            for dt in (-1, 0, 'a', None, [1, 2], 1j):
                if dt is None and g.NumberOfInputs:
                    continue
                bad.append(('%s dt=%s %s' % (k, dt, m), lambda g=g, m=m, dt=dt: discretize(
                    g, dt, m, q=QS[0])))
        for m in ('bogus', '', 'zo', None, 3, 'tustinn', 'forward'):
            bad.append(('%s method %s' % (k, m), lambda g=g, m=m: discretize(g, 0.5, m)))
        if MODELS[k].gain:
            continue
        for m in TUSTIN:
            for dt in (0.1, 1, 4):
                for f in (0.51, 0.75, 1., 1.2, 3, 100.):
                    bad.append(('%s %s dt=%s prewarp %s/dt' % (k, m, dt, f),
                                lambda g=g, m=m, dt=dt, f=f: discretize(g, dt, m, prewarp_at=f/dt)))
        for q in (None, [[1, 2, 3], [4, 5, 6]], [1, 2, 3, 4], 3, [[1, 2]], np.eye(3)):
            bad.append(('%s lft q=%s' % (k, q), lambda g=g, q=q: discretize(g, 0.5, 'lft', q=q)))
    for x in (3, None, 'a', np.eye(2), [1, 2]):
        bad.append(('not a model %s' % (x,), lambda x=x: discretize(x, 0.5)))
    for key, f in bad:
        rep.step()
        rep.trace()
        rep.state(key)
        r = call(f)
        if not isinstance(r, Err):
            rep.violation(key, 'accepted', 'call should be refused, returned %r' % (r,))
        else:
            rep.outcome('refused ' + r.name)


def check(rep, key, spec, g, method, dt, kw):
    rep.trace()
    rep.step()
    rep.state(key)
    before = model_state(g)
    if method == 'tustin' and not kw and spec.shape == (1, 1):
        r = call(discretize, g, dt)                # the default method
    else:
        r = call(discretize, g, dt, method, **kw)
    if model_state(g) != before or g.SamplingPeriod is not None:
        rep.violation(key, 'mutated', 'argument changed')
        return
    with np.errstate(all='ignore'):
        ref = sampled_values(spec, method, dt, PTS, kw.get('prewarp_at', 0.), kw.get('q'))
        far = sampled_values(spec, method, dt, PTS*1e9, kw.get('prewarp_at', 0.), kw.get('q'))
    if not np.all(np.abs(far) < 1e6):
        # the model has a pole which the substitution sends to infinity
        if isinstance(r, Err):
            rep.outcome('improper, refused')
        elif isinstance(spec, Ss) and spec.n == 1:
            rep.violation(key, 'improper', 'improper result not refused')
        else:
            rep.skip('improper result, not refused')
        return
    if isinstance(r, Err):
        rep.violation(key, 'refused', repr(r))
        return
    if type(r) is not type(g) or tuple(r.shape) != spec.shape:
        rep.violation(key, 'kind', '%s %s instead of %s %s' % (
            type(r).__name__, r.shape, type(g).__name__, spec.shape))
        return
    if r.SamplingPeriod != dt or r.SamplingSet != 'Z':
        rep.violation(key, 'period', 'sampling period %s' % r.SamplingPeriod)
        return
    v = call(obj_values, r)
    if isinstance(v, Err) or not same_values(rep, 'value', v, ref):
        rep.violation(key, 'value', 'wrong values: %s, %s expected' % (
            np.ravel(v)[:3] if not isinstance(v, Err) else v, np.ravel(ref)[:3]))
        return
    if isinstance(g, State) and spec.n and r.NumberOfStates != spec.n:
        rep.violation(key, 'states', '%d states instead of %d' % (r.NumberOfStates, spec.n))
        return
    static = np.size(r.poles) == 0              # possibly after exact cancellation
    if r.DiscretizedWith != method and not (static and r.DiscretizedWith is None):
        rep.violation(key, 'note', 'method note %s' % r.DiscretizedWith)
        return
    if not static:
        if 'prewarp_at' in kw and r.PrewarpFrequency != kw['prewarp_at']:
            rep.violation(key, 'note', 'prewarp note %s' % r.PrewarpFrequency)
        elif 'q' in kw and not np.array_equal(r.DiscretizationMatrix, kw['q']):
            rep.violation(key, 'note', 'matrix note %s' % r.DiscretizationMatrix)
    rep.outcome(method + (' static' if spec.gain else ''))


def run(case, rep):
    name, dt = case
    if name == 'refuse':
        return refuse(rep)
    if ':' in name:
        e = name.split(':')[1].split(',')
        m = int(name[2])
        spec = Tf([[E[x] for x in e[i:i+m]] for i in range(0, len(e), m)])
    else:
        spec = MODELS[name]
    g = spec.build()
    for m in METHODS:
        check(rep, '%s dt=%s %s' % (name, dt, m), spec, g, m, dt, {})
    for m in TUSTIN:
        for f in PRE:
            check(rep, '%s dt=%s %s %s' % (name, dt, m, f), spec, g, m, dt,
                  dict(prewarp_at=f/dt))
    for i, q in enumerate(QS):
        check(rep, '%s dt=%s lft%d' % (name, dt, i), spec, g, 'lft', dt,
              dict(q=np.array(q, float) if i % 2 else q))
