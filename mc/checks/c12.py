"""Undoing discretizations: round trips, arbitrary discrete models and remembered methods."""
import itertools

import numpy as np

from ..core import call, Err
from ..ref import Tf, Ss, PTS, obj_values, same_values, model_state
from ..sampled import METHODS, TUSTIN, FORWARD, BACKWARD, realize, held_values
from . import c11
from harold import Transfer, State, discretize, undiscretize

# the 3x3 transfer loses too many digits in its 81-coefficient representation
MODELS = {k: v for k, v in c11.MODELS.items() if k != 't33_d'}
QS = c11.QS
DTS = {'quick': [0.1, 0.5, 2], 'thorough': [0.05, 0.1, 0.25, 0.5, 1, 2]}
PRE = {'quick': [0.1, 0.45], 'thorough': [0.01, 0.1, 0.25, 0.4, 0.45]}
# discrete models by their entries/poles, including poles that some method cannot handle
DE = dict(a=([1], [1, -0.5]), b=([1, 2], [1, 0.5]), z=([1], [1, 0]), y=([3, 1], [1, 0, 0]),
          one=([1], [1, -1]), m1=([1], [1, 1]), cx=([1], [1, -1, 0.5]), r2=([2], [1, -1, 0.25]),
          k=([3], [2]), fc=([2, -1], [1, -0.5]), un=([1, 0], [1, -2]), sh=([1, 0.2], [1, -0.7, 0.1]))
BOUNDS = {t: '%d models x all methods and aliases x sampling periods %s x prewarping %s x %d '
          'interconnections, undone with the method named and with the remembered one; %d discrete '
          'models (1x1..2x2, poles at 0, -1, 1, complex, repeated, unstable) x all methods; all '
          'note histories of length 1-3 before a conversion without method' % (
              len(MODELS), DTS[t], PRE[t], len(QS), 2*len(DE)+8) for t in DTS}
ASSUMPTIONS = ['hold-equivalents are undone to the original only for poles below the Nyquist '
               'frequency whose sampled value is larger than 1e-5',
               'a model with a pole at a point the inverse relation sends to infinity must be '
               'refused when it has a single state, larger ones may be detected or not']
CHUNK = 1
ACTS = [('DiscretizedWith', m) for m in ('zoh', 'tustin', 'bilinear', 'foh', '>>', '<<', 'lft')] + [
    ('PrewarpFrequency', 0.2), ('DiscretizationMatrix', QS[2]), ('SamplingPeriod', 0.25),
    ('SamplingPeriod', 2.), ('none', None)]


def cases(tier):
    out = [['trip', k, dt, tier] for k in MODELS for dt in DTS[tier]]
    one = list(DE)
    out += [['disc', [[x]], dt, kind] for x in one for dt in DTS[tier] for kind in 'TS']
    for e in itertools.product(['a', 'z', 'm1', 'k'], repeat=2):
        out += [['disc', [list(e)], 0.5, 'T'], ['disc', [[x] for x in e], 0.5, 'S']]
    for e in ([['a', 'b'], ['k', 'cx']], [['one', 'k'], ['fc', 'a']], [['r2', 'a'], ['a', 'r2']],
              [['sh', 'cx'], ['un', 'one']]):
        out += [['disc', e, dt, kind] for dt in DTS[tier] for kind in 'TS']
    for k in ('a', 'cx', 'one', 'k'):
        for kind in 'TS':
            for i in range(len(ACTS)):
                out.append(['notes', k, kind, i])
    out.append(['refuse'])
    return out


def z_of_s(s, method, dt, prewarp=0., q=None):
    if method in TUSTIN:
        k = 2/dt if prewarp == 0. else 2*np.pi*prewarp/np.tan(np.pi*prewarp*dt)
        return (k+s)/(k-s)
    if method in FORWARD:
        return 1+dt*s
    if method in BACKWARD:
        return 1/(1-dt*s)
    (q11, q12), (q21, q22) = q
    return (q11 - (q11*q22-q12*q21)*s)/(1-q22*s)


def spec_poles(spec):
    if isinstance(spec, Ss):
        return np.linalg.eigvals(spec.a) if spec.n else np.array([])
    return np.concatenate([np.roots(np.trim_zeros(np.array(d, float), 'f'))
                           for r in spec.e for n, d in r])


def poles_not_cancelled(spec):
    """Poles of the entries apart from those cancelled inside their entry."""
    if isinstance(spec, Ss):
        return spec_poles(spec)
    out = []
    for r in spec.e:
        for n, d in r:
            z = list(np.roots(np.trim_zeros(np.array(n, float), 'f'))) if np.any(n) else None
            if z is None:
                continue
            out += [p for p in np.roots(np.trim_zeros(np.array(d, float), 'f'))
                    if not any(abs(p-x) < 1e-6 for x in z)]
    return np.array(out)


def model_of(g):
    """Specification from the data of a model."""
    if isinstance(g, State):
        a, b, c, d = g.matrices
        return Ss(None, None, None, d) if np.size(a) == 0 else Ss(a, b, c, d)
    n, d = g.polynomials
    if tuple(g.shape) == (1, 1):
        return Tf([[(np.ravel(n), np.ravel(d))]])
    return Tf([[(np.ravel(x), np.ravel(y)) for x, y in zip(r, q)] for r, q in zip(n, d)])


def common(rep, key, g, r):
    if type(r) is not type(g) or tuple(r.shape) != tuple(g.shape):
        rep.violation(key, 'kind', '%s %s from %s %s' % (type(r).__name__, r.shape,
                                                         type(g).__name__, g.shape))
        return False
    if r.SamplingSet != 'R' or r.SamplingPeriod is not None:
        rep.violation(key, 'period', 'result is not continuous: %s' % r.SamplingPeriod)
        return False
    return True


def trip(rep, key, spec, g, method, dt, kw):
    gd = call(discretize, g, dt, method, **kw)
    if isinstance(gd, Err):
        rep.skip('not discretizable')              # judged by the discretization check
        return
    if method in ('zoh', 'foh'):
        p = spec_poles(spec)
        if np.any(np.abs(p.imag)*dt > 3.) or np.any(np.exp(p.real*dt) < 1e-5):
            rep.skip('aliased or vanishing pole')
            return
    if method == 'lft' and kw['q'][0][1]*kw['q'][1][0] == 0:
        return
    ref = spec.values()
    forms = [('remembered', lambda: undiscretize(gd))]
    forms.append(('named', lambda: undiscretize(gd, method, **kw)))
    if method == 'lft':
        forms.append(('named, stored q', lambda: undiscretize(gd, 'lft')))
    if spec.gain or np.size(gd.poles) == 0:
        forms = forms[:2]
    for how, f in forms:
        k = key + ' ' + how
        rep.trace()
        rep.step(2)
        rep.state(k)
        before = model_state(gd)
        r = call(f)
        if model_state(gd) != before:
            rep.violation(k, 'mutated', 'argument changed')
            continue
        if isinstance(r, Err):
            rep.violation(k, 'refused', repr(r))
            continue
        if not common(rep, k, g, r):
            continue
        v = call(obj_values, r)
        if isinstance(v, Err) or not same_values(rep, 'trip ' + method, v, ref, 1e-4):
            rep.violation(k, 'value', 'values %s instead of %s' % (
                np.ravel(v)[:3] if not isinstance(v, Err) else v, np.ravel(ref)[:3]))
            continue
        rep.outcome(how + ' ' + method)


def undo(rep, key, spec, gd, f, method, dt, kw):
    """Judge one conversion of a discrete model with the given relation."""
    rep.trace()
    rep.step()
    rep.state(key)
    before = model_state(gd)
    r = call(f)
    if model_state(gd) != before:
        rep.violation(key, 'mutated', 'argument changed')
        return
    poles = poles_not_cancelled(spec)
    if spec.gain:
        poles = np.array([])
    if method in ('zoh', 'foh'):
        must_refuse = np.any((np.abs(poles.imag) < 1e-9) & (poles.real < 1e-9))
    else:
        with np.errstate(all='ignore'):
            zi = z_of_s(1e12, method, dt, kw.get('prewarp_at', 0.), kw.get('q'))
        must_refuse = np.any(np.abs(poles-zi) < 1e-6)
    if isinstance(r, Err):
        rep.outcome('refused' if must_refuse else 'wrongly refused')
        if not must_refuse:
            # a pole hidden inside an entry may also stop the method
            hidden = spec_poles(spec)
            if len(hidden) > len(poles):
                rep.skip('refused because of a hidden pole')
                return
            rep.violation(key, 'refused', repr(r))
        return
    if must_refuse:
        if len(poles) == 1 or method in ('zoh', 'foh'):
            rep.violation(key, 'accepted', 'the inverse of this model does not exist')
        else:
            rep.skip('singular, not refused')
        return
    if not common(rep, key, gd, r):
        return
    if method in ('zoh', 'foh'):
        m = call(model_of, r)
        if isinstance(m, Err):
            rep.violation(key, 'value', repr(m))
            return
        if isinstance(m, Ss):
            got = held_values(m.a, m.b, m.c, m.d, dt, method, PTS)
        else:
            p, q = m.shape
            got = np.empty((len(PTS), p, q), complex)
            for i in range(p):
                for j in range(q):
                    got[:, i, j] = held_values(*realize(*m.e[i][j]), dt, method, PTS)[:, 0, 0]
        ref = spec.values()
    else:
        got = call(obj_values, r)
        ref = spec.values(z_of_s(PTS, method, dt, kw.get('prewarp_at', 0.), kw.get('q')))
    if isinstance(got, Err) or not same_values(rep, 'undo ' + method, got, ref, 1e-4):
        rep.violation(key, 'value', 'relation does not hold: %s, %s expected' % (
            np.ravel(got)[:3] if not isinstance(got, Err) else got, np.ravel(ref)[:3]))
        return
    rep.outcome('undone ' + method)


def disc_spec(e, kind, dt):
    t = Tf([[DE[x] for x in r] for r in e], dt)
    if kind == 'T' or t.gain:
        return t if kind == 'T' else Ss(None, None, None, t.inf().real, dt)
    # block realization, one block per entry
    p, m = t.shape
    blocks = [(i, j, realize(*t.e[i][j])) for i in range(p) for j in range(m)]
    n = sum(b[0].shape[0] for _, _, b in blocks)
    a, b, c, d = np.zeros((n, n)), np.zeros((n, m)), np.zeros((p, n)), np.zeros((p, m))
    k = 0
    for i, j, (ea, eb, ec, ed) in blocks:
        w = ea.shape[0]
        a[k:k+w, k:k+w], b[k:k+w, [j]], c[[i], k:k+w] = ea, eb, ec
        d[i, j] = ed[0, 0]
        k += w
    return Ss(a, b, c, d, dt)


def notes(rep, k, kind, i):
    for rest in itertools.product(range(len(ACTS)), repeat=2):
        spec = disc_spec([[k]], kind, 0.5)
        gd = spec.build()
        key = 'notes %s %s' % (k, kind)
        for a in (i,) + rest:
            attr, val = ACTS[a]
            if attr != 'none':
                ok = not isinstance(call(setattr, gd, attr, val), Err)
                key += ' %s=%s%s' % (attr, val, '' if ok else '!')
        m = gd.DiscretizedWith or 'tustin'
        kw = {}
        dt = gd.SamplingPeriod
        if m in TUSTIN and gd.PrewarpFrequency:
            kw['prewarp_at'] = gd.PrewarpFrequency
            if kw['prewarp_at'] >= 1/(2*dt):
                continue
        if m == 'lft':
            if gd.DiscretizationMatrix is None:
                if not spec.gain and not isinstance(call(undiscretize, gd), Err):
                    rep.violation(key, 'accepted', 'no interconnection is known')
                continue
            kw['q'] = gd.DiscretizationMatrix
        undo(rep, key, spec, gd, lambda: undiscretize(gd), m, dt, kw)
        # so do an explicitly given frequency and matrix
        if m in TUSTIN:
            undo(rep, key + ' at', spec, gd, lambda: undiscretize(gd, prewarp_at=.2/dt), m, dt,
                 dict(prewarp_at=.2/dt))
        if m == 'lft':
            undo(rep, key + ' q', spec, gd, lambda: undiscretize(gd, q=QS[0]), m, dt, dict(q=QS[0]))
        # an explicitly named method overrides the notes
        for other in ('zoh', '>>', '<<', 'tustin'):
            if other == 'tustin' and (m in TUSTIN):
                continue
            undo(rep, key + ' as ' + other, spec, gd, lambda: undiscretize(gd, other), other, dt, {})


def refuse(rep):
    bad = []
    for k in ('t_p1', 's_2', 't22_d', 's22_d', 't_k3', 's_k3', 's22_k', 't22_k'):
        g = MODELS[k].build()
        gd = MODELS[k].with_dt(0.5).build()
        for m in METHODS + ('lft', None):
            bad.append(('%s continuous %s' % (k, m), lambda g=g, m=m: undiscretize(g, m, q=QS[0])))
        if MODELS[k].gain:
            continue
        for m in ('bogus', '', 'zo', 'tustinn'):
            bad.append(('%s method %s' % (k, m), lambda gd=gd, m=m: undiscretize(gd, m)))
        for m in TUSTIN:
            for f in (1.02, 1.5, 2, 2.4, 10):
                bad.append(('%s %s prewarp %s' % (k, m, f),
                            lambda gd=gd, m=m, f=f: undiscretize(gd, m, prewarp_at=f)))
        bad.append((k + ' lft without q', lambda gd=gd: undiscretize(gd, 'lft')))
        for q in ([[1, 2, 3], [4, 5, 6]], [1, 2, 3, 4], 3, [[1, 2]], np.eye(3), [[1, 0], [1, 1]],
                  [[1, 1], [0, 1]]):
            bad.append(('%s lft q=%s' % (k, q), lambda gd=gd, q=q: undiscretize(gd, 'lft', q=q)))
    for x in (3, None, 'a', np.eye(2), [1, 2]):
        bad.append(('not a model %s' % (x,), lambda x=x: undiscretize(x)))
    for key, f in bad:
        rep.step()
        rep.trace()
        rep.state(key)
        r = call(f)
        if not isinstance(r, Err):
            rep.violation(key, 'accepted', 'call should be refused, returned %r' % (r,))
        else:
            rep.outcome('refused ' + r.name)


def run(case, rep):
    if case[0] == 'refuse':
        return refuse(rep)
    if case[0] == 'notes':
        return notes(rep, *case[1:])
    if case[0] == 'trip':
        _, name, dt, tier = case
        spec = MODELS[name]
        g = spec.build()
        for m in METHODS:
            trip(rep, '%s dt=%s %s' % (name, dt, m), spec, g, m, dt, {})
        for m in TUSTIN:
            for f in PRE[tier]:
                trip(rep, '%s dt=%s %s %s' % (name, dt, m, f), spec, g, m, dt,
                     dict(prewarp_at=f/dt))
        for i, q in enumerate(QS):
            if i == 3 and name[0] == 't' and spec.shape[0]*spec.shape[1] > 3:
                continue                           # badly conditioned for many poles
            trip(rep, '%s dt=%s lft%d' % (name, dt, i), spec, g, 'lft', dt,
                 dict(q=np.array(q, float)))
        return
    _, e, dt, kind = case
    spec = disc_spec(e, kind, dt)
    gd = spec.build()
    key = '%s%s dt=%s ' % (kind, e, dt)
    for m in METHODS:
        undo(rep, key + m, spec, gd, lambda: undiscretize(gd, m), m, dt, {})
    undo(rep, key + 'default', spec, gd, lambda: undiscretize(gd), 'tustin', dt, {})
    for f in PRE['thorough']:
        undo(rep, key + 'tustin %s' % f, spec, gd,
             lambda: undiscretize(gd, 'tustin', prewarp_at=f/dt), 'tustin', dt,
             dict(prewarp_at=f/dt))
    for i, q in enumerate(QS):
        undo(rep, key + 'lft%d' % i, spec, gd, lambda: undiscretize(gd, 'lft', q=q), 'lft', dt,
             dict(q=q))
