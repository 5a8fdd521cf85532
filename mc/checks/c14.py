"""Frequency response: values on the returned grid for given and automatic grids."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, model_state
from . import c11
from harold import frequency_response, Transfer

MODELS = dict(c11.MODELS)
_z = np.zeros
MODELS['s_un2'] = Ss(np.diag([-1., -2, -3]), [[1], [0], [1]], [[1, 1, 0]], [[2]])      # hidden modes
MODELS['s_unall'] = Ss(np.diag([-1., -2]), [[1], [0]], [[0, 1]], [[2]])
MODELS['s_b0'] = Ss(np.diag([-1., -2]), [[0], [0]], [[1, 1]], [[2]])
MODELS['s_c0'] = Ss(np.diag([-1., -2]), [[1], [1]], [[0, 0]], [[0]])
MODELS['s22_h'] = Ss(np.diag([-1., -2, -3, -4]), [[1, 0], [0, 1], [0, 0], [1, 1]],
                     [[1, 0, 1, 0], [0, 0, 1, 1]], [[0, 0], [1, 0]])
MODELS['s22_r0'] = Ss(np.diag([-1., -2]), [[1, 0], [1, 1]], [[1, 1], [0, 0]], [[0, 1], [1, 0]])
MODELS['s_2i'] = Ss([[0, 1], [0, 0]], [[0], [1]], [[1, 0]], [[0]])
MODELS['s_sw'] = Ss([[0, 1], [1, 0]], [[0], [1]], [[0, 1]], [[0]])
MODELS['s_sk'] = Ss([[0, -1, 0], [1, 0, -1], [0, 1, 0]], [[0], [0], [1]], [[1, 0, 0]], [[0]])
MODELS['s_5'] = Ss(np.diag([1., 1, 1, 1], 1) - 0.3*np.eye(5) - np.outer(np.eye(5)[4], np.ones(5)),
                   [[1, 0], [0, 0], [0, 1], [0, 0], [0, 1]], [[1, 0, 0, 0, 0], [0, 1, 0, -1, 0]],
                   [[0, 0], [0, 0]])
GRIDS = {'one': 0.3, 'single': [0.7], 'some': [0.01, 0.2, 0.9, 3.1], 'unsorted': [2., 0.1, 1.],
         'zero': [0., 0.4], 'row': np.array([[0.1, 0.2, 0.3]]), 'col': np.array([[0.1], [0.6]]),
         'int': [1, 2], 'many': np.linspace(0.05, 5, 41), 'same': [0.2, 0.2], 'neg': [-0.3, 0.3]}
UNITS = ['Hz', 'rad/s', 'hz', 'RAD/S']
DTS = {'quick': [None, 0.5, 0.1], 'thorough': [None, 0.5, 0.1, 2, 0.01]}
# natural frequencies and damping ratios of the modes that automatic grids have to show
MODES = {'quick': ((1e-3, 0.2, 1., 10., 3e4), (0.3, 0.05, 1e-3, 1e-5)),
         'thorough': ((1e-3, 0.02, 0.2, 1., 2.3, 10., 700., 3e4), (0.6, 0.3, 0.05, 0.01, 1e-3, 1e-5))}
BOUNDS = {t: '%d models (both kinds, static, integrators, oscillators, hidden modes, 1x1..3x3) x '
          'sampling periods %s x %d user grids (scalars, lists, rows, columns, unsorted, repeated, '
          'zero) and automatic grids of unspecified/3/40/300 samples x input unit x output unit '
          '(4 spellings each) x minimal realization on/off; automatic grids of all models made of two '
          'modes with %d natural frequencies from 1e-3 to 3e4 rad/s x %d damping ratios, added, on '
          'separate channels, or as a notch over a mode'
          % (len(MODELS), DTS[t], len(GRIDS), len(MODES[t][0]), len(MODES[t][1])) for t in DTS}
ASSUMPTIONS = ['an automatic grid shows a mode if it starts a factor of two below and (continuous) ends '
               'a factor of two above it, and reaches 80 % of a resonance peak or twice the depth of '
               'a dip',
               'frequencies at which the model has a pole (values above 1e7) are not judged',
               'user grids of discrete models may be cut at the Nyquist frequency']
CHUNK = 1


def cases(tier):
    out = [[k, dt] for k in MODELS for dt in DTS[tier]] + [['refuse', None]]
    modes = list(itertools.product(*MODES[tier]))
    for dt in DTS[tier]:
        ok = [q for q in modes if dt is None or q[0]*dt < 2.5]
        out += [['modes', dt, form, a] for a in ok for form in ('sum', 'notch', 'mimo')]
    return out


def rads(w, unit):
    return np.asarray(w, float)*2*np.pi if unit.lower() == 'hz' else np.asarray(w, float)


def judge(rep, key, spec, g, grid, wu, ou, samples, minreal, poles):
    rep.trace()
    rep.step()
    rep.state(key)
    kw = {}
    if grid is not None:
        kw['w'] = grid.copy() if isinstance(grid, np.ndarray) else grid
    if samples is not None:
        kw['samples'] = samples
    if wu != 'Hz':
        kw['w_unit'] = wu
    if ou != 'Hz':
        kw['output_unit'] = ou
    if minreal:
        kw['use_minreal'] = True
    before = model_state(g)
    r = call(frequency_response, g, **kw)
    if model_state(g) != before:
        return rep.violation(key, 'mutated', 'the model was changed')
    if isinstance(r, Err):
        # a single grid beyond the Nyquist frequency is refused
        if grid is not None and spec.dt is not None and \
                np.all(rads(np.ravel(grid), wu) > np.pi/spec.dt):
            rep.outcome('beyond Nyquist')
            return
        return rep.violation(key, 'refused', repr(r))
    if not isinstance(r, tuple) or len(r) != 2:
        return rep.violation(key, 'form', 'not a pair: %r' % (r,))
    fr, w = (np.asarray(x) for x in r)
    if w.ndim != 1 or w.size == 0 or not np.all(np.isfinite(w)):
        return rep.violation(key, 'grid', 'returned grid %s' % (w,))
    wr = rads(w, ou)
    if grid is not None:
        ref = rads(np.ravel(grid), wu)
        if spec.dt is not None:
            keep = ref <= np.pi/spec.dt*(1 + 1e-12)
            alt = ref[keep]
        else:
            alt = ref
        if not (wr.shape == ref.shape and np.allclose(wr, ref, rtol=1e-12, atol=0)) and \
                not (wr.shape == alt.shape and np.allclose(wr, alt, rtol=1e-12, atol=0)):
            return rep.violation(key, 'grid', 'returned grid %s is not the given one' % (w[:4],))
    else:
        if np.any(wr <= 0) or np.any(np.diff(wr) < 0):
            return rep.violation(key, 'grid', 'automatic grid is not positive and increasing')
        if w.size < (samples or 2):
            return rep.violation(key, 'grid', '%d samples, at least %s asked' % (w.size, samples))
        if spec.dt is not None and np.any(wr > np.pi/spec.dt*1.0000001):
            return rep.violation(key, 'grid', 'automatic grid beyond the Nyquist frequency')
    p, m = spec.shape
    if fr.shape != ((w.size,) if (p, m) == (1, 1) else (p, m, w.size)):
        return rep.violation(key, 'shape', 'response %s for a %dx%d model and %d frequencies' % (
            fr.shape, p, m, w.size))
    fr = np.moveaxis(fr.reshape(p, m, -1), 2, 0).astype(complex)
    s = 1j*wr if spec.dt is None else np.exp(1j*wr*spec.dt)
    ok = np.ones(s.size, bool)
    for q in poles:
        ok &= np.abs(s - q) > 1e-5*(1 + abs(q))
    if not ok.any():
        rep.skip('all points on poles')
        return
    with np.errstate(all='ignore'):
        try:
            ref = spec.values(s[ok])
        except np.linalg.LinAlgError:
            rep.skip('singular')
            return
        size = np.abs(ref).reshape(len(ref), -1).max(axis=1)
        size = np.where(np.isfinite(size), size, np.inf)
    if np.any(size > 1e7):
        ok[ok] = size <= 1e7
        ref = ref[size <= 1e7]
        if not len(ref):
            rep.skip('all points on poles')
            return
    got = fr[ok]
    # relative to the size of the response at the point, with the conditioning near poles
    dist = np.ones(s[ok].size)
    for q in poles:
        dist = np.minimum(dist, np.abs(s[ok]-q))
    sc = (1 + np.abs(ref).reshape(len(ref), -1).max(axis=1))[:, None, None]/np.minimum(
        dist, 1.)[:, None, None]
    if not np.all(np.isfinite(got)) or not rep.close('value', got/sc, ref/sc, 1e-7, scale=1.):
        e = np.abs(got/sc-ref/sc).reshape(len(ref), -1).max(axis=1)
        i = int(np.argmax(np.where(np.isfinite(e), e, np.inf)))
        return rep.violation(key, 'value', 'at %g rad/s: %s instead of %s' % (
            wr[ok][i], np.ravel(got[i])[:3], np.ravel(ref[i])[:3]))
    rep.outcome('%s%s' % ('user' if grid is not None else 'auto', ' static' if spec.gain else ''))


def spec_poles(spec):
    if isinstance(spec, Ss):
        return np.linalg.eigvals(spec.a) if spec.n else np.array([])
    return np.concatenate([np.roots(np.trim_zeros(np.array(d, float), 'f'))
                           for r in spec.e for n, d in r])


def pair(mode, dt):
    w, z = mode
    p = -z*w + 1j*w*np.sqrt(1-z*z)
    return p if dt is None else np.exp(p*dt)


def block(p):
    return np.array([[p.real, p.imag], [-p.imag, p.real]])


def modes(rep, dt, form, first):
    """Automatic grids of models with two known modes, poles or zeros."""
    tier = 'quick' if tuple(first) in MODE_SET['quick'] else 'thorough'
    for second in MODE_SET[tier]:
        if dt is not None and second[0]*dt >= 2.5:
            continue
        a, b = pair(first, dt), pair(second, dt)
        key = '%s dt=%s %g/%g %g/%g' % ((form, dt) + tuple(first) + second)
        if form == 'notch':
            if not 1e-3 <= first[0]/second[0] <= 1e3 or first[0] == second[0]:
                continue            # zeros of badly scaled polynomials are not accurate
            num, den = np.poly([a, np.conj(a)]).real, np.poly([b, np.conj(b)]).real
            g, peaks, dips = Transfer(num, den, dt), [(second, 0)], [(first, 0)]

            def gain(x):
                return np.abs((x-a)*(x-np.conj(a))/((x-b)*(x-np.conj(b))))[:, None]
        else:
            A = np.zeros((4, 4))
            A[:2, :2], A[2:, 2:] = block(a), block(b)
            B = np.array([[0, 1, 0, 1.]]).T
            C = np.array([[1, 0, 1., 0]])
            if form == 'mimo':
                B, C = np.array([[0, 1, 0, 0], [0, 0, 0, 1.]]).T, np.array([[1, 0, 0, 0], [0, 0, 1., 0]])
            spec = Ss(A, B, C, np.zeros((C.shape[0], B.shape[1])), dt)
            g, dips = spec.build(), []
            peaks = [(first, 0), (second, 3 if form == 'mimo' else 0)]

            def gain(x, spec=spec):
                return np.abs(spec.values(x)).reshape(len(x), -1)
        rep.trace()
        rep.step()
        rep.state(key)
        r = call(frequency_response, g, w_unit='rad/s', output_unit='rad/s')
        if isinstance(r, Err):
            rep.violation(key, 'refused', repr(r))
            continue
        w = np.ravel(r[1])
        ws = [first[0], second[0]]
        if w[0] > 0.5*min(ws) or (dt is None and w[-1] < 2*max(ws)):
            rep.violation(key, 'span', 'automatic grid %g..%g for modes at %s rad/s' % (
                w[0], w[-1], ws))
            continue
        mag = np.abs(np.asarray(r[0])).reshape(-1, w.size).T
        for todo, sign in ((peaks, 1), (dips, -1)):
            for (wn, z), channel in todo:
                if z >= 0.5 or sign < 0 and z < 1e-4:
                    continue
                fine = np.r_[np.geomspace(0.8*wn, 1.2*wn, 801), wn*np.sqrt(1-2*z*z),
                             wn*np.sqrt(1-z*z), wn]
                if dt is not None:
                    fine = fine[fine < 0.98*np.pi/dt]
                true = gain(1j*fine if dt is None else np.exp(1j*fine*dt))[:, channel]
                near = mag[(w > 0.8*wn) & (w < 1.2*wn), channel]
                if len(near) == 0 or (near.max() < 0.8*true.max() if sign > 0 else
                                      near.min() > 2*true.min()):
                    rep.violation(key, 'resolution', 'the %s at %g rad/s is not shown: %s instead '
                                  'of %s' % (('peak', wn, near.max(initial=0), true.max())
                                             if sign > 0 else ('dip', wn, near[:1], true.min())))
        rep.outcome('modes shown')


MODE_SET = {t: list(itertools.product(*MODES[t])) for t in MODES}


def run(case, rep):
    name, dt = case[:2]
    if name == 'modes':
        return modes(rep, *case[1:])
    if name == 'refuse':
        return refuse(rep)
    spec = MODELS[name].with_dt(dt)
    g = spec.build()
    poles = spec_poles(spec)
    for wu in UNITS:
        for ou in UNITS:
            for gname, grid in GRIDS.items():
                judge(rep, '%s dt=%s %s %s>%s' % (name, dt, gname, wu, ou), spec, g, grid, wu, ou,
                      None, False, poles)
            for n in (None, 3, 40, 300):
                if n == 300 and (wu, ou) != ('Hz', 'rad/s'):
                    continue
                judge(rep, '%s dt=%s auto %s %s>%s' % (name, dt, n, wu, ou), spec, g, None, wu, ou,
                      n, False, poles)
    for gname in ('one', 'some', 'zero'):
        judge(rep, '%s dt=%s %s minreal' % (name, dt, gname), spec, g, GRIDS[gname], 'Hz', 'Hz',
              None, True, poles)
    judge(rep, '%s dt=%s auto minreal' % (name, dt), spec, g, None, 'Hz', 'Hz', None, True, poles)


def refuse(rep):
    for k in ('t_p1', 's_2', 't_k3', 's22_d'):
        g = MODELS[k].build()
        for key, f in (
                ('unit', lambda: frequency_response(g, w_unit='khz')),
                ('output unit', lambda: frequency_response(g, output_unit='rads')),
                ('matrix grid', lambda: frequency_response(g, w=np.ones((2, 2)))),
                ('text grid', lambda: frequency_response(g, w=['a'])),
                ('beyond nyquist', lambda: frequency_response(
                    MODELS[k].with_dt(0.5).build(), w=[3.])),
                ('not a model', lambda: frequency_response(3.))):
            rep.step()
            rep.trace()
            rep.state(k, key)
            r = call(f)
            if key == 'beyond nyquist':
                continue
            if not isinstance(r, Err):
                rep.violation('%s %s' % (k, key), 'accepted', 'returned %s' % (r,))
            else:
                rep.outcome('refused')
