"""Plots: the drawn curves against own responses."""
import itertools

import numpy as np
import matplotlib
import matplotlib.pyplot as plt

from ..core import call, Err
from .. import alpha
from ..ref import Ss, model_state
from .c16 import recursion, response
from harold import (bode_plot, nyquist_plot, step_response_plot, impulse_response_plot,
                    frequency_response)

A = alpha.ALL
MODELS = {
    'gain': A['t_k3'], 'neg': A['s_km'], 'zero': A['t_k0'], 't1': A['t_p1'], 's2': A['s_2b'],
    'fast': Ss([[-300.]], [[300.]], [[2.]], [[0]]), 'slow': Ss([[-.02]], [[.02]], [[1.]], [[0]]),
    'int': A['t_it'], 'lag': A['t_tr'], 't12': A['t12_d'], 't21': A['t21_m'], 't22': A['t22_z'],
    's22': A['s22_b'], 's23': A['s23_d'], 'g22': A['s22_k'],
    'z1': Ss([[.5]], [[1]], [[1]], [[.25]], 0.2), 'z22': Ss([[.5, .25], [-.25, .5]], np.eye(2),
                                                           [[1, 2], [0, 1]], [[0, 0], [1, 0]], 0.1),
    'zg': A['t_kq'].with_dt(0.5), 'z12': Ss([[-.5]], [[1, 2]], [[1]], [[0, 1]], 2.)}
PAIRS = ['gain', 't1', 'slow', 'fast', 't12', 't21', 's22', 'z1', 'z22', 'zg']
PLOTS = {'bode': bode_plot, 'nyquist': nyquist_plot, 'step': step_response_plot,
         'impulse': impulse_response_plot}
GRID = {'w': [0.05, 0.11, 0.4, 0.9, 1.7, 2.2], 'one': [0.3]}
BOUNDS = {
    'quick': '%d models alone x all combinations of units, negative frequencies, given or automatic '
             'frequencies/times, style; ordered pairs and 2-fold repetitions of %d models x units x '
             'given or automatic grids; ordered triples of 4 models and of 3 widely spread ones and lists of 12 models x styles'
             % (len(MODELS), len(PAIRS)),
    'thorough': 'as quick with ordered pairs of all models and triples of 6 models'}
ASSUMPTIONS = ['magnitudes without the decibel option are base-10 exponents, as labelled on the axis',
               'automatic Nyquist curves of several models are only required to lie on the locus',
               'the first 400 samples of time responses are compared']
CHUNK = 1
CASE_LIMIT = 300


def cases(tier):
    out = [['one', k, p] for k in MODELS for p in PLOTS]
    pairs = PAIRS if tier == 'quick' else list(MODELS)
    out += [['many', [a, b], p] for a in pairs for b in pairs for p in PLOTS]
    trip = ['t1', 't21', 't12', 'z1'] if tier == 'quick' else ['t1', 't21', 't12', 'z1', 's22', 'fast']
    out += [['many', list(c), p] for c in itertools.permutations(trip, 3) for p in PLOTS]
    out += [['many', list(c), p] for c in itertools.permutations(['slow', 't1', 'fast'], 3)
            for p in PLOTS]
    out += [['long', k, p] for k in ('t1', 'z1', 't21') for p in PLOTS]
    return out + [['refuse', None, p] for p in PLOTS]


STYLES = {None: None, 'color': dict(color=['r', 'g']),
          'both': dict(color=['k', 'b', 'm'], linestyle=[':', '--', '-']),
          'width': dict(linewidth=[4., 1.5], linestyle=['--', ':'])}


def cyc(name):
    return None if name is None else matplotlib.cycler(**STYLES[name])


def styled(line, name, k, only=None):
    if name is None:
        return True
    for prop, vals in STYLES[name].items():
        if only and prop not in only:
            continue
        v = vals[k % len(vals)]
        got = getattr(line, 'get_' + prop)()
        if prop == 'color':
            if matplotlib.colors.to_rgba(got) != matplotlib.colors.to_rgba(v):
                return False
        elif got != v:
            return False
    return True


def freq(spec, x):
    """Own response at rad/s values, (p, m, N)."""
    s = 1j*x if spec.dt is None else np.exp(1j*x*spec.dt)
    with np.errstate(all='ignore'):
        return np.moveaxis(spec.values(s), 0, 2)


def grid_ok(spec, x, given):
    """Whether x (rad/s) are the given frequencies, possibly cut at the Nyquist frequency."""
    alt = given if spec.dt is None else given[given <= np.pi/spec.dt*(1+1e-12)]
    return any(x.shape == g.shape and np.allclose(x, g, rtol=1e-12, atol=0) for g in (given, alt))


def auto(spec, g):
    r = call(frequency_response, g, output_unit='rad/s')
    return None if isinstance(r, Err) else r[1]


def curves(ax):
    return [l for l in ax.get_lines() if len(l.get_xdata()) > 0]


def frames(fig):
    """Axes by (row, column)."""
    out = {}
    for ax in fig.axes:
        ss = ax.get_subplotspec()
        if ss is not None:
            out[ss.rowspan.start, ss.colspan.start] = ax
    return out


def xy(line):
    return np.asarray(line.get_xdata(orig=True), float).ravel(), \
        np.asarray(line.get_ydata(orig=True), float).ravel()


def mags_ok(rep, y, ref, db):
    with np.errstate(all='ignore'):
        r = np.log10(np.abs(ref))*(20 if db else 1)
    # zero responses cannot be drawn
    z = np.abs(ref) < 1e-13
    ok = ~z & np.isfinite(r) & (np.abs(ref) < 1e8)
    return bool(np.all(~np.isfinite(y[z]) | (y[z] < -11))) and \
        rep.close('magnitude', y[ok], r[ok], 1e-5)


def phase_ok(rep, y, ref, deg):
    z = np.abs(ref) < 1e-13
    ok = ~z & (np.abs(ref) < 1e8) & np.isfinite(ref)
    if not ok.any():
        return bool(np.all(~np.isfinite(y[np.abs(ref) == 0])))
    if not np.all(np.isfinite(y[ok])):
        return False
    yr = np.deg2rad(y[ok]) if deg else y[ok]
    if not rep.close('phase', np.exp(1j*yr), ref[ok]/np.abs(ref[ok]), 1e-5):
        return False
    if ok.all() and np.any(np.abs(np.diff(yr)) > np.pi*(1+1e-6)):
        return False                        # the phase is not unwrapped
    return bool(np.all(~np.isfinite(y[np.abs(ref) == 0])))


def on_locus(rep, spec, i, j, z):
    """Every point of z lies on the frequency response of channel (i, j)."""
    top = 5 if spec.dt is None else np.log10(np.pi/spec.dt)
    lw = np.linspace(-7, top, 3001)
    f = lambda l: freq(spec, 10.**l)[i, j]
    dense = f(lw)
    k = np.array([np.nanargmin(np.abs(dense-q)) for q in z])
    lo, hi = lw[np.maximum(k-1, 0)], lw[np.minimum(k+1, lw.size-1)]
    g = (np.sqrt(5)-1)/2
    for _ in range(60):
        a, b = hi-g*(hi-lo), lo+g*(hi-lo)
        left = np.abs(f(a)-z) < np.abs(f(b)-z)
        lo, hi = np.where(left, lo, a), np.where(left, b, hi)
    d = np.minimum(np.abs(f((lo+hi)/2)-z), np.abs(dense[k]-z))
    return rep.close('locus', d/(1+np.abs(z)), 0*d, 1e-3, scale=1.)


def response_at(spec, kind, x):
    step = x[1]-x[0]
    n = min(x.size, 400)
    p, m = spec.shape
    abcd = recursion(spec, step)
    ref = np.empty((n, p, m))
    for k in range(m):
        u = np.zeros((n, m))
        u[:, k] = 1 if kind == 'step' else 0
        if kind == 'impulse':
            u[0, k] = 1/step
        ref[:, :, k] = response(abcd, u, None)
    return ref


def judge(rep, key, specs, plot, kw, style, listed=True):
    rep.step()
    rep.state(key)
    rep.trace()
    plt.close('all')
    gs = [s.build() for s in specs]
    before = [model_state(g) for g in gs]
    args = dict(kw)
    for k in ('w', 't'):
        if k in args:
            args[k] = np.array(args[k], float)
    if style is not None:
        args['style'] = cyc(style)
    r = call(PLOTS[plot], gs if listed else gs[0], **args)
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    for k in ('w', 't'):
        if k in kw and not np.array_equal(args[k], np.array(kw[k], float)):
            return rep.violation(key, 'mutated', 'the given %s was changed' % k)
    if [model_state(g) for g in gs] != before:
        return rep.violation(key, 'mutated', 'a model was changed')
    fig = r if isinstance(r, matplotlib.figure.Figure) else np.ravel(r)[0].figure
    P, M = (max(s.shape[i] for s in specs) for i in (0, 1))
    fr = frames(fig)
    rows = 2*P if plot == 'bode' else P
    if set(fr) != set(itertools.product(range(rows), range(M))):
        return rep.violation(key, 'frames', 'frames %s for %dx%d' % (sorted(fr), P, M))
    bad = (bode if plot == 'bode' else nyquist if plot == 'nyquist' else timed)(
        rep, specs, gs, fr, plot, kw, style)
    if bad:
        return rep.violation(key, bad[0], bad[1])
    rep.outcome('%s %d frames %s' % (plot, len(fr), ' '.join(sorted(kw))))
    plt.close('all')


def bode(rep, specs, gs, fr, plot, kw, style):
    unit = 2*np.pi if kw.get('use_hz', True) else 1.
    db, deg = kw.get('use_db', False), kw.get('use_degree', True)
    seen = {}
    for (row, col), ax in fr.items():
        for l in curves(ax):
            if l.get_label() in seen:
                return 'labels', 'two curves %s' % l.get_label()
            seen[l.get_label()] = (row, col, l)
    want = set()
    if 'w' not in kw:
        own = [x for x in (auto(s, g) for s, g in zip(specs, gs)) if x is not None]
        shared = (min(x[0] for x in own), max(x[-1] for x in own)) if own else None
    for k, (s, g) in enumerate(zip(specs, gs)):
        for j, i in itertools.product(range(s.shape[1]), range(s.shape[0])):
            for part, what in enumerate(('mag', 'phase')):
                lab = 'sys_%d_in_%d_out_%d_%s' % (k, j, i, what)
                want.add(lab)
                if lab not in seen:
                    return 'missing', 'no curve %s' % lab
                row, col, l = seen[lab]
                if (row, col) != (2*i+part, j):
                    return 'place', '%s in frame %d,%d' % (lab, row, col)
                if not fr[row, col].get_visible():
                    return 'hidden', '%s is in a hidden frame' % lab
                x, y = xy(l)
                if x.size != y.size or x.size == 0 or l.axes.get_xscale() != 'log':
                    return 'data', lab
                x = x*unit
                if 'w' in kw:
                    if not grid_ok(s, x, np.array(kw['w'])*unit):
                        return 'grid', '%s at %s' % (lab, x[:4])
                else:
                    own = auto(s, g)
                    if np.any(x <= 0) or np.any(np.diff(x) < -1e-9*x[:-1]):
                        return 'grid', '%s: automatic grid is not increasing' % lab
                    if s.dt is None and len(specs) > 1:     # continuous models share the range
                        own = shared
                    if own is not None and (x[0] > own[0]*1.0001 or x[-1] < own[-1]*.9999):
                        return 'grid', '%s: %.3g..%.3g does not cover %.3g..%.3g' % (
                            lab, x[0], x[-1], own[0], own[-1])
                    if s.dt is not None and x[-1] > np.pi/s.dt*1.0001:
                        return 'grid', '%s: beyond the Nyquist frequency' % lab
                ref = freq(s, x)[i, j]
                if not (mags_ok(rep, y, ref, db) if what == 'mag' else phase_ok(rep, y, ref, deg)):
                    return what, '%s: %s at %s rad/s' % (lab, y[:3], x[:3])
                if not styled(l, style, k):
                    return 'style', lab
                if s.dt is not None:
                    want.add(lab + '_nyqline')
                    if lab + '_nyqline' not in seen:
                        return 'missing', 'no line %s_nyqline' % lab
                    row, col, l = seen[lab + '_nyqline']
                    if (row, col) != (2*i+part, j) or not np.allclose(
                            np.array(l.get_xdata(), float)*unit, np.pi/s.dt):
                        return 'nyqline', '%s at %s' % (lab, l.get_xdata())
    if set(seen) != want:
        return 'extra', 'curves %s' % sorted(set(seen)-want)


def nyquist(rep, specs, gs, fr, plot, kw, style):
    unit = 2*np.pi if kw.get('use_hz', True) else 1.
    neg = kw.get('negative_freqs', True)
    for (row, col), ax in fr.items():
        ls = [l for l in curves(ax)]
        here = [(k, s, g) for k, (s, g) in enumerate(zip(specs, gs))
                if row < s.shape[0] and col < s.shape[1]]
        marks = [l for l in ls if len(l.get_xdata()) == 1 and
                 str(l.get_marker()) not in ('None', '', ' ')]
        ls = [l for l in ls if l not in marks]
        if here and not any(xy(l)[0][0] == -1 and xy(l)[1][0] == 0 for l in marks):
            return 'mark', 'critical point is not marked in frame %d,%d' % (row, col)
        if len(ls) != len(here)*(2 if neg else 1):
            return 'missing', '%d curves of %d models in frame %d,%d' % (
                len(ls), len(here), row, col)
        n = 0
        for k, s, g in here:
            pair = ls[n:n+(2 if neg else 1)]
            n += len(pair)
            z = [np.array(xy(l)[0]) + 1j*xy(l)[1] for l in pair]
            if neg and not (z[0].shape == z[1].shape and np.allclose(
                    z[0], z[1].conj(), rtol=1e-9, atol=1e-12)):
                return 'mirror', 'frame %d,%d' % (row, col)
            z = z[0]
            if 'w' in kw:
                w = np.array(kw['w'])*unit
                alts = [w, w[w <= np.pi/s.dt*(1+1e-12)]] if s.dt is not None else [w]
                ok = any(x.size == z.size and rep.close(
                    'points', z, freq(s, x)[row, col], 1e-5) for x in alts)
            elif len(specs) == 1:
                x = auto(s, g)
                ref = freq(s, x)[row, col] if x is not None else z
                good = np.abs(ref) < 1e6
                ok = ref.shape == z.shape and rep.close('points', z[good], ref[good], 1e-5)
            else:
                good = np.abs(z) < 1e3
                ok = z.size > 1 and on_locus(rep, s, row, col, z[good])
            if not ok:
                return 'points', 'model %d frame %d,%d: %s' % (k, row, col, z[:3])
            if not styled(pair[0], style, k) or neg and not styled(
                    pair[1], style, k, ('color', 'linewidth')):
                return 'style', 'model %d frame %d,%d' % (k, row, col)


def timed(rep, specs, gs, fr, plot, kw, style):
    for (row, col), ax in fr.items():
        ls = curves(ax)
        here = [(k, s) for k, s in enumerate(specs) if row < s.shape[0] and col < s.shape[1]]
        if len(ls) != len(here):
            return 'missing', '%d curves of %d models in frame %d,%d' % (
                len(ls), len(here), row, col)
        for l, (k, s) in zip(ls, here):
            x, y = xy(l)
            if x.size != y.size or x.size < 2:
                return 'data', 'model %d frame %d,%d' % (k, row, col)
            if 't' in kw:
                if x.shape != np.shape(kw['t']) or not np.allclose(x, kw['t'], rtol=1e-12):
                    return 'grid', 'model %d drawn at %s' % (k, x[:3])
            elif x[0] != 0 or not np.allclose(np.diff(x), x[1], rtol=1e-6) or \
                    s.dt is not None and not np.isclose(x[1], s.dt):
                return 'grid', 'model %d drawn at %s' % (k, x[:3])
            ref = response_at(s, plot, x)[:, row, col]
            sc = 1 + np.maximum.accumulate(np.abs(ref))
            if not rep.close('response', y[:ref.size]/sc, ref/sc, 1e-6, scale=1.):
                return 'response', 'model %d frame %d,%d: %s instead of %s' % (
                    k, row, col, y[:4], ref[:4])
            if (l.get_drawstyle() == 'steps-post') != (s.dt is not None):
                return 'steps', 'model %d is drawn with %s' % (k, l.get_drawstyle())
            if not styled(l, style, k):
                return 'style', 'model %d frame %d,%d' % (k, row, col)


def options(plot, specs, full):
    """Option combinations; automatic grids for everything."""
    out = []
    if plot == 'bode':
        for hz, db, deg in itertools.product((True, False), repeat=3):
            if full or hz == db == deg or (hz, db, deg) == (False, True, False):
                out.append(dict(use_hz=hz, use_db=db, use_degree=deg))
    elif plot == 'nyquist':
        for hz, neg in itertools.product((True, False), repeat=2):
            if full or hz == neg:
                out.append(dict(use_hz=hz, negative_freqs=neg))
    else:
        out.append({})
    # given grids
    more = []
    if plot in ('bode', 'nyquist'):
        for o in out:
            for gname, g in GRID.items():
                # every frequency has to be below the Nyquist frequency of some sample
                unit = 2*np.pi if o['use_hz'] else 1.
                if all(s.dt is None or np.min(g)*unit <= np.pi/s.dt for s in specs):
                    if full or gname == 'w':
                        more.append(dict(o, w=g))
    else:
        dts = {s.dt for s in specs} - {None}
        for h in (dts if dts else {0.05, 1.}):
            if len(dts) < 2:
                more.append(dict(t=(np.arange(12)*h).tolist()))
    return out + more


def run(case, rep):
    kind, what, plot = case
    if kind == 'one':
        specs = [MODELS[what]]
        for o in options(plot, specs, True):
            base = '%s %s %s' % (what, plot, sorted(o.items()))
            judge(rep, base, specs, plot, o, None, listed=False)
            judge(rep, base + ' list', specs, plot, o, None)
        for st in STYLES:
            judge(rep, '%s %s style %s' % (what, plot, st), specs, plot, {}, st, listed=False)
        size = dict(figsize=(5., 4.), gridspec_kw={'hspace': .3})
        r = call(PLOTS[plot], specs[0].build(), **size)
        rep.step()
        key = '%s %s figsize' % (what, plot)
        if isinstance(r, Err):
            return rep.violation(key, 'refused', repr(r))
        fig = r if isinstance(r, matplotlib.figure.Figure) else np.ravel(r)[0].figure
        if not np.allclose(fig.get_size_inches(), (5, 4)) or size['gridspec_kw'] != {'hspace': .3}:
            rep.violation(key, 'kwargs', 'size %s' % fig.get_size_inches())
    elif kind == 'many':
        specs = [MODELS[k] for k in what]
        name = '+'.join(what)
        for o in options(plot, specs, False):
            judge(rep, '%s %s %s' % (name, plot, sorted(o.items())), specs, plot, o, None)
        for st in list(STYLES)[1:] if len(specs) > 2 else ['both']:
            judge(rep, '%s %s style %s' % (name, plot, st), specs, plot, {}, st)
    elif kind == 'long':
        specs = [MODELS[what]]*12
        for st in STYLES:
            judge(rep, '12 %s %s style %s' % (what, plot, st), specs, plot, {}, st)
    else:
        g = MODELS['t1'].build()
        for bn, b in {'number': 3., 'array': np.eye(2), 'mixed': [g, 2.], 'string': 'ab'}.items():
            rep.step()
            rep.state('refuse', plot, bn)
            r = call(PLOTS[plot], b)
            if not isinstance(r, Err):
                rep.violation('refuse %s %s' % (plot, bn), 'accepted', 'drawn')
            rep.outcome('refused')
    plt.close('all')
