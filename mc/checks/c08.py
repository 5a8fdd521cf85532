"""Channel selection: every index form on every model of the alphabet, and selections of selections."""
import numpy as np

from ..core import call, Err
from ..ref import Tf, Ss, obj_values, same_values, model_state
from .. import alpha

BOUNDS = {'quick': 'all models of the operand alphabet (1x1..3x3, both kinds, static/dynamic), '
          'continuous and discrete, x single and double subscripts over every integer in range and '
          'one beyond each end, 26 slices, index lists (ordered, reversed, repeated, out of range), '
          'integer arrays and boolean masks; all pairs of successive selections over a subset',
          'thorough': 'as quick, plus every slice with bounds in -4..4 and steps in {-2,-1,1,2} '
          'and all pairs of successive selections'}
ASSUMPTIONS = ['selections of no channel at all are not judged',
               'two index lists select the product of rows and columns (documented behaviour)']
CHUNK = 1
N = None


def sl(*a):
    return ['s'] + list(a)


SLICES = [sl(N, N, N), sl(0, 1, N), sl(0, 2, N), sl(1, N, N), sl(1, 2, N), sl(1, 3, N), sl(2, N, N),
          sl(N, -1, N), sl(-1, N, N), sl(-2, N, N), sl(-2, -1, N), sl(N, N, -1), sl(N, N, 2),
          sl(1, N, 2), sl(N, N, -2), sl(2, 0, -1), sl(1, N, -1), sl(0, 5, N), sl(-5, 2, N),
          sl(N, 2, N), sl(N, 1, N), sl(0, 3, 2), sl(2, N, -2), sl(-1, N, -1), sl(-3, N, N),
          sl(N, -2, N)]
LISTS = [[0], [1], [0, 1], [1, 0], [0, 0], [-1], [2, 0], [0, 2, 1], [-1, 0], [1, 1, 0], [0, 3], [-4]]
INTS = [0, 1, 2, 3, -1, -2, -3, -4]
OTHER = [['a', 0, 1], ['a', 1], ['m', 1, 0], ['m', 0, 1], ['m', 1, 0, 1], ['m', 1], ['i', 0], ['i', 1],
         ['x']]
FORMS = INTS + SLICES + [['l'] + x for x in LISTS] + OTHER


def all_slices():
    r = [N] + list(range(-4, 5))
    return [sl(a, b, c) for a in r for b in r for c in (-2, -1, 1, 2)]


def real(f):
    if not isinstance(f, list):
        return f
    k, *v = f
    return {'s': lambda: slice(*v), 'l': lambda: list(v), 'a': lambda: np.array(v),
            'm': lambda: np.array(v, bool), 'i': lambda: np.int64(v[0]), 'x': lambda: 'a'}[k]()


def positions(f, n):
    """Selected positions, None when the index is not valid.  Plain lists, no numpy indexing."""
    if isinstance(f, int):
        f = ['l', f]
    k, *v = f
    if k == 's':
        return list(range(n))[slice(*v)]
    if k in 'lai':
        return [x % n for x in v] if all(-n <= x < n for x in v) else None
    if k == 'm':
        return [i for i in range(n) if v[i]] if len(v) == n else None
    return None


MODELS = {k: v for d in (alpha.TRANSFERS, alpha.STATES) for k, v in d.items()}


def cases(tier):
    out = []
    for k in MODELS:
        for dt in (None, 0.5):
            out.append(['one', k, dt])
            if MODELS[k].shape != (1, 1) or k in ('t_bp', 's_2', 't_k3', 's_k3'):
                if dt is None:
                    out.append(['two', k, dt])
    if tier != 'quick':
        for k in MODELS:
            out.append(['slices', k, None])
    return out


def sub(v, r, c):
    return v[:, r][:, :, c]


def judge(rep, key, g, idx, rows, cols, ref, spec, dt):
    """One selection; returns the new model if it is fine."""
    before = model_state(g)
    rep.step()
    h = call(lambda: g[idx])
    if model_state(g) != before:
        rep.violation(key, 'mutated', 'the indexed model was changed')
        return None
    if rows is None or cols is None:
        rep.outcome('out of range')
        if not isinstance(h, Err):
            rep.violation(key, 'accepted', 'invalid index %s accepted' % (idx,))
        return None
    if not rows or not cols:
        rep.outcome('empty')
        return None
    rep.outcome('selected')
    if isinstance(h, Err):
        rep.violation(key, 'refused', 'index %s: %r' % (idx, h))
        return None
    if type(h) is not type(g):
        rep.violation(key, 'kind', 'result is a %s' % type(h).__name__)
        return None
    if tuple(h.shape) != (len(rows), len(cols)):
        rep.violation(key, 'shape', 'shape %s instead of %s' % (h.shape, (len(rows), len(cols))))
        return None
    if (h.NumberOfOutputs, h.NumberOfInputs) != (len(rows), len(cols)):
        rep.violation(key, 'counts', 'channel counts disagree with the shape')
        return None
    if h.SamplingPeriod != dt:
        rep.violation(key, 'period', 'period %s instead of %s' % (h.SamplingPeriod, dt))
        return None
    v = call(obj_values, h)
    if isinstance(v, Err) or not same_values(rep, 'value', v, sub(ref, rows, cols)):
        rep.violation(key, 'value', 'selected channels have other values: %r' % (v,))
        return None
    return h


def run(case, rep):
    what, name, dt = case
    spec = MODELS[name].with_dt(dt)
    p, m = spec.shape
    ref = spec.values()
    g = spec.build()

    def go(rf, cf, base=g, bref=ref, shape=(p, m), tag=''):
        p, m = shape
        if cf is None:
            idx = real(rf)
            rows, cols = positions(rf, p), list(range(m))
            key = '%s %s%s[%s]' % (name, dt, tag, rf)
        else:
            idx = (real(rf), real(cf))
            rows, cols = positions(rf, p), positions(cf, m)
            key = '%s %s%s[%s,%s]' % (name, dt, tag, rf, cf)
        rep.trace()
        rep.state(key)
        return judge(rep, key, base, idx, rows, cols, bref, spec, dt), rows, cols

    if what == 'slices':
        for rf in all_slices():
            go(rf, None)
            go(rf, 0)
            go(0, rf)
            go(sl(N, N, N), rf)
        return
    if what == 'one':
        for rf in FORMS:
            go(rf, None)
            for cf in FORMS:
                go(rf, cf)
        for idx in ((0, 0, 0), ('a', 0), (0, 'a')):
            if not isinstance(call(lambda: g[idx]), Err):
                rep.violation('%s %s[%s]' % (name, dt, idx), 'accepted', 'index %s' % (idx,))
        for idx in (0, (0, 0)):
            before = model_state(g)

            def put():
                g[idx] = 1
            if not isinstance(call(put), Err) or model_state(g) != before:
                rep.violation('%s %s item assignment' % (name, dt), 'setitem', 'accepted')
        return
    first = [0, -1, sl(N, N, N), sl(N, N, -1), sl(0, 2, N), ['l', 1, 0], ['l', 0, 0], ['m', 1, 0]]
    second = [0, 1, -1, sl(N, N, -1), sl(1, N, N), ['l', 1, 0], ['a', 0, 1]]
    for rf in first:
        for cf in first:
            h, r, c = go(rf, cf)
            if h is None:
                continue
            for rf2 in second:
                go(rf2, None, h, sub(ref, r, c), (len(r), len(c)), '[%s,%s]' % (rf, cf))
                for cf2 in second:
                    go(rf2, cf2, h, sub(ref, r, c), (len(r), len(c)), '[%s,%s]' % (rf, cf))
