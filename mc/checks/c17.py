"""Step and impulse responses on given and automatic grids."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, model_state
from . import c16
from .c16 import recursion, response
from harold import simulate_step_response, simulate_impulse_response

# pole alphabets: real poles, or (re, im) pairs
CONT = {'-1': -1, '-20': -20, '-.01': -.01, '0': 0, '1': 1, '-1+2j': (-1, 2), '3j': (0, 3),
        '.5+4j': (.5, 4), '-.1+9j': (-.1, 9)}
DISC = {'.5': .5, '-.5': -.5, '0': 0, '1': 1, '-1': -1, '1.25': 1.25, '-2': -2, '.99': .99,
        '.5+.5j': (.5, .5), 'j': (0, 1), '1+1j': (1, 1), '-.3+.2j': (-.3, .2), '-.999': -.999,
        'slow': (np.cos(.02), np.sin(.02))}
DTS = {'quick': [0.1, 1., 7.], 'thorough': [0.01, 0.1, 1., 7., 60.]}
USER = {'pair': [0, 1], 'short': [0, 1, 2], 'long': list(range(31)), 'shift': [3, 4, 5, 6]}
BOUNDS = {t: 'single-channel models with every multiset of up to %d modes from 9 continuous and 14 '
          'discrete pole locations (state and transfer form, with and without feedthrough), named '
          '1x1..3x3 models of both kinds; step and impulse; automatic grids and user grids with '
          'steps 0.05 and 1, periods %s' % (2 if t == 'quick' else 3, DTS[t]) for t in DTS}
ASSUMPTIONS = ['settled: at most 40 % of the largest deviation is left at the end; resolved: straight '
               'lines between samples deviate at most 5 % of the range',
               'the impulse is the documented one-sample pulse of unit area',
               'samples where the response exceeds 1e100 and those after the first 2000 are not compared']
CHUNK = 1


def modal(locs, form):
    """Observable/controllable single-channel model with the given poles."""
    den = np.array([1.])
    for r in locs:
        den = np.convolve(den, [1, -r] if np.isscalar(r) else [1, -2*r[0], r[0]**2+r[1]**2])
    n = len(den)-1
    num = np.array([1.] + [0.]*0) if form != 'zero' else np.r_[1., np.arange(1., n)]
    if form == 'D':
        num = np.r_[2*den[:1], 2*den[1:-1], 2*den[-1]+1]
    return num, den


def cases(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for k in range(1, n+1):
        for c in itertools.combinations_with_replacement(sorted(CONT), k):
            out.append(['poles', list(c), None])
        for c in itertools.combinations_with_replacement(sorted(DISC), k):
            for dt in DTS[tier]:
                out.append(['poles', list(c), dt])
    for k in c16.MODELS:
        for dt in [None] + DTS[tier]:
            out.append(['named', k, dt])
    return out + [['refuse', None, None]]


def judge(rep, key, spec, g, kind, t, tform=None):
    rep.trace()
    rep.state(key)
    f = simulate_step_response if kind == 'step' else simulate_impulse_response
    r = call(f, g) if t is None else call(f, g, t=t if tform is None else tform)
    if isinstance(r, Err):
        rep.step()
        return rep.violation(key, 'refused', repr(r))
    y, tt = (np.asarray(x) for x in r)
    rep.step(max(1, tt.size))
    p, m = spec.shape
    N = tt.size
    if tt.ndim != 1 or N < 2 or not np.all(np.isfinite(tt)):
        return rep.violation(key, 'grid', 'time samples %s' % (tt[:5],))
    if t is not None:
        if tt.shape != np.shape(t) or not np.allclose(tt, t, rtol=1e-12, atol=1e-15):
            return rep.violation(key, 'grid', 'time samples %s are not the given ones' % (tt[:5],))
        step = t[1]-t[0]
    else:
        step = tt[1]-tt[0]
        if tt[0] != 0 or step <= 0 or not np.allclose(np.diff(tt), step, rtol=1e-6, atol=0):
            return rep.violation(key, 'grid', 'automatic grid %s.. is not even from zero' % (
                tt[:5],))
        if spec.dt is not None and not np.allclose(tt, np.arange(N)*spec.dt, rtol=1e-9, atol=0):
            return rep.violation(key, 'grid', 'automatic grid %s is not made of multiples of %s'
                                 % (tt[:5], spec.dt))
        if N < 2:
            return rep.violation(key, 'grid', 'automatic grid of %d samples' % N)
    want = (N, p) if m == 1 else (N, p, m)
    if y.shape != want and not (p == m == 1 and y.shape == (N,)):
        return rep.violation(key, 'shape', 'response %s instead of %s' % (y.shape, want))
    y = y.reshape(N, p, m)
    abcd = recursion(spec, step)
    if N > 2000:
        # the remaining samples are checked through the same recursion, on a prefix only
        y, N = y[:2000], 2000
    ref = np.empty((N, p, m))
    for k in range(m):
        u = np.zeros((N, m))
        if kind == 'step':
            u[:, k] = 1
        else:
            u[0, k] = 1/step
        ref[:, :, k] = response(abcd, u, None)
    use = np.all(np.abs(ref) < 1e100, axis=(1, 2))
    ref, y = ref[use], y[use]
    sc = np.maximum.accumulate(np.abs(ref).reshape(len(ref), -1).max(axis=1))[:, None, None] + 1
    if not rep.close('response', y/sc, ref/sc, 1e-6, scale=1.):
        i = int(np.argmax(np.abs(y/sc-ref/sc).reshape(len(ref), -1).max(axis=1)))
        return rep.violation(key, 'value', 'sample %d: %s instead of %s' % (
            i, y[i].ravel(), ref[i].ravel()))
    rep.outcome('%s %s %s' % (kind, 'auto' if t is None else 'user', 'gain' if spec.gain else ''))


def quality(rep, key, spec, g, kind, poles):
    """Automatic grids last until a stable response settles and resolve continuous ones."""
    f = simulate_step_response if kind == 'step' else simulate_impulse_response
    r = call(f, g)
    if isinstance(r, Err) or np.size(r[1]) < 3:
        return                              # reported by the comparison above
    y, t = np.ravel(r[0]), np.ravel(r[1])
    if y.size != t.size:
        return
    rep.step()
    if np.all(poles.real < -1e-9) if spec.dt is None else np.all(np.abs(poles) < 1-1e-9):
        final = 0. if kind == 'impulse' else float(np.real(
            spec.values(np.array([0j if spec.dt is None else 1+0j]))[0, 0, 0]))
        dev = np.abs(y - final)[1 if kind == 'impulse' else 0:]
        if dev[-1] > 0.4*np.max(dev) + 1e-12:
            return rep.violation(key, 'horizon', 'the response is cut at %g s, %.2g of its largest '
                                 'deviation is left' % (t[-1], dev[-1]/np.max(dev)))
        rep.outcome('settled')
    else:
        # logarithms of poles on the stability boundary, zero for integrators
        with np.errstate(all='ignore'):
            z = poles if spec.dt is None else np.log(poles.astype(complex))/spec.dt
        z = z[np.isfinite(z)]
        slow = np.abs(z.imag[(np.abs(z.real) < 1e-6) & (np.abs(z.imag) > 1e-6)])
        if slow.size and np.all(z.real < 1e-6):
            if t[-1]*slow.min() < 2*np.pi*2:
                return rep.violation(key, 'horizon', 'less than two periods of an oscillation are shown')
            rep.outcome('oscillation shown')
    re, wn = np.abs(poles.real), np.abs(poles)
    re, wn = re[re > 1e-4], wn[wn > 1e-4]
    if spec.dt is None and kind == 'step':
        need = 25*5/(2*np.pi)*np.max(wn, initial=0)*max(np.max(np.log(100)/re, initial=0),
                                                        np.max(10*np.pi/wn, initial=0))
        if need > 1e4:
            return                          # more samples than an automatic grid may have
        n = min(t.size, 2000)
        yy = response(recursion(spec, (t[1]-t[0])/4), np.ones((4*n, 1)), None).ravel()
        if not np.all(np.abs(yy) < 1e100):
            return
        lin = np.interp(np.arange(4*(n-1)+1), np.arange(0, 4*n, 4), yy[::4])
        if np.max(np.abs(lin-yy[:lin.size])) > 0.05*np.ptp(yy):
            return rep.violation(key, 'resolution', 'steps of %g s miss part of the response' % (
                t[1]-t[0]))
        rep.outcome('resolved')


def all_grids(rep, key, spec, poles=None):
    g = spec.build()
    before = model_state(g)
    for kind in ('step', 'impulse'):
        judge(rep, '%s %s auto' % (key, kind), spec, g, kind, None)
        if poles is not None:
            quality(rep, '%s %s auto' % (key, kind), spec, g, kind, poles)
        for un, ut in USER.items():
            for h in ((0.05, 1.) if spec.dt is None else (spec.dt,)):
                t = np.array(ut, float)*h
                judge(rep, '%s %s %s %g' % (key, kind, un, h), spec, g, kind, t)
        h = spec.dt or 0.5
        t = np.arange(4)*h
        judge(rep, '%s %s list' % (key, kind), spec, g, kind, t, t.tolist())
        judge(rep, '%s %s row' % (key, kind), spec, g, kind, t, t[None, :].copy())
    if model_state(g) != before:
        rep.violation(key, 'mutated', 'the model was changed')


def run(case, rep):
    kind, what, dt = case
    if kind == 'poles':
        al = CONT if dt is None else DISC
        for form in ('plain', 'zero', 'D'):
            num, den = modal([al[x] for x in what], form)
            if len(num) > len(den) or (form == 'zero' and len(num) == 1):
                continue
            key = '%s %s dt=%s' % ('|'.join(what), form, dt)
            tf = Tf([[(num.tolist(), den.tolist())]], dt)
            ps = np.roots(den)
            all_grids(rep, 'T ' + key, tf, ps)
            a, b, c, d = recursion(Tf(tf.e, 1.), 1.)      # the realization itself
            all_grids(rep, 'S ' + key, Ss(a, b, c, d, dt), ps)
    elif kind == 'named':
        all_grids(rep, '%s dt=%s' % (what, dt), c16.MODELS[what].with_dt(dt))
    else:
        for k in ('t_p1', 's_2', 't_k3', 's22_d', 's22_k'):
            for dt in (None, 0.5):
                g = c16.MODELS[k].with_dt(dt).build()
                bad = {'uneven': [0, .5, 1., 1.7], 'decreasing': [1., .5, 0.], 'one': [0.],
                       'matrix': np.ones((2, 2)), 'tiny uneven': [0, 1e-9, 5e-9],
                       'constant': [0., 0., 0.]}
                if dt:
                    bad['other step'] = [0., .4, .8]
                for f in (simulate_step_response, simulate_impulse_response):
                    for bn, t in bad.items():
                        key = 'refuse %s dt=%s %s %s' % (k, dt, f.__name__[9:13], bn)
                        rep.trace()
                        rep.step()
                        rep.state(key)
                        r = call(f, g, t=t)
                        if not isinstance(r, Err):
                            rep.violation(key, 'accepted', 'returned %s' % (np.ravel(r[0])[:4],))
                        else:
                            rep.outcome('refused')
