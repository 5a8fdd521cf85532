"""DC gain against exact evaluation at s = 0 or z = 1 after exact cancellation."""
import itertools
from fractions import Fraction

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, model_state, charpoly, fmat, fmul, F, pdivmod, pmul, trim
from . import c22

D3 = (-1, 0, 1)
# the integrator factor is x (continuous) or x-1 (discrete): roots are relative to that point
FACT = {'i': [1, 0], 'a': [1, 1], 'b': [1, 2], 'u': [1, -2], 'c': [1, 2, 5], 'h': [1, 0.5]}
SETS = ['0', '0 -1', '0 0', 'J0', '0 h', '0 -1 -2', '0 0 -1', 'J0 -1', '0 c', 'J0 0', '0 0 0',
        '0 -1 h 3', 'J0 -1 h', '0 0 -1 -2', 'J0 J-1', '0 c h', '-1 -2', 'c', '-1 c h', 'J0 c']
BOUNDS = {
    'quick': 'transfers: every pair of factor multisets (up to 3 zeros, 3 poles, 6 factors, '
             'integrators and cancelled integrators), 1x1 and all 2x2/1x2/2x1 arrangements of 8 '
             'entries; state models: %d mode multisets x every controllable/observable labelling '
             'x 3 coordinates x 1x1..2x2 channels, every 1x1 model of order 1-2 with entries in '
             '{-1,0,1}, both time domains' % len(SETS),
    'thorough': 'as quick with up to 4 zeros and poles and 3x2 channels'}
ASSUMPTIONS = ['discrete models have dyadic coefficients so that the integrator is exact',
               'the sign of an infinite gain is not judged']
CHUNK = 4


def cases(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    k = sorted(FACT)
    for q in range(n+1):
        for d in itertools.combinations_with_replacement(k, q):
            out.append(['tf', list(d), n])
    for dt in (None, 0.5):
        for shape in ((1, 2), (2, 1), (2, 2)):
            for first in range(8):
                out.append(['mimo', list(shape), first, dt])
    for s in SETS:
        for lab in itertools.product(range(4), repeat=len(c22.blocks(s))):
            out.append(['modes', s, list(lab), tier])
    for a in itertools.product(D3, repeat=4):
        out.append(['full2', list(a)])
    out += [['full1'], ['named']]
    return out


def shift(p, dt):
    """Polynomial in x rewritten for x = s, or x = z - 1 (exact)."""
    if dt is None:
        return [float(v) for v in p]
    r = []
    for c in F(p):
        r = pmul(r, [Fraction(1), Fraction(-1)])
        r = (r or [Fraction(0)])
        r = list(r)
        r[-1] += c
    return [float(v) for v in r]


def value(n, d, x):
    """Exact n/d at x after cancelling common factors; None for infinite."""
    n, d = F(n), F(d)
    n = [v for v in n]
    if not any(n):
        return 0.
    f = [Fraction(1), -Fraction(x)]
    while True:
        qn, rn = pdivmod(n, f)
        qd, rd = pdivmod(d, f)
        rn = rn[-1] if rn else 0
        rd = rd[-1] if rd else 0
        if rn == 0 and rd == 0:
            n, d = qn, qd
            continue
        if rd == 0:
            return None
        return float(Fraction(rn)/Fraction(rd))


def channel(a, b, c, d):
    """Exact numerator and denominator of a single channel."""
    den = charpoly(a)
    h, x = [Fraction(d)], [[v] for v in map(Fraction, b)]
    A = fmat(a)
    for _ in range(len(a)):
        h.append(sum(Fraction(u)*v[0] for u, v in zip(c, x)))
        x = fmul(A, x)
    num = [sum(den[j]*h[i-j] for j in range(i+1)) for i in range(len(den))]
    return num, den


def judge(rep, key, spec, ref):
    rep.trace()
    rep.step()
    rep.state(key)
    g = spec.build()
    before = model_state(g)
    r = call(lambda: g.dcgain)
    if model_state(g) != before:
        return rep.violation(key, 'mutated', 'the model was changed')
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    r = np.asarray(r)
    p, m = spec.shape
    if r.size != p*m or (p*m > 1 and r.shape != (p, m)):
        return rep.violation(key, 'shape', 'dcgain %s of a %dx%d model' % (r, p, m))
    r = r.reshape(p, m)
    for i in range(p):
        for j in range(m):
            e = ref[i][j]
            if e is None:
                ok = np.isinf(r[i, j])
            else:
                ok = np.isfinite(r[i, j]) and rep.close('gain', r[i, j], e, 1e-6,
                                                        scale=1+abs(e))
            if not ok:
                return rep.violation(key, 'value', 'channel %d,%d: %s instead of %s' % (
                    i, j, r[i, j], 'inf' if e is None else e))
    rep.outcome('inf' if any(e is None for q in ref for e in q) else 'finite')


def tf(rep, key, e, dt):
    x = 0 if dt is None else 1
    e = [[(shift(n, dt), shift(d, dt)) for n, d in r] for r in e]
    judge(rep, key, Tf(e, dt), [[value(n, d, x) for n, d in r] for r in e])


def ss(rep, key, a, b, c, d, dt):
    """Model given in x = s or x = z - 1."""
    a, b, c, d = (np.array(v, float) for v in (a, b, c, d))
    ref = [[value(*channel(a.tolist(), b[:, j].tolist(), c[i].tolist(), d[i, j]), 0)
            for j in range(b.shape[1])] for i in range(c.shape[0])]
    judge(rep, key, Ss(a + (0 if dt is None else np.eye(len(a))), b, c, d, dt), ref)


def prod(names, g):
    p = [float(g)]
    for x in names:
        p = np.convolve(p, FACT[x])
    return [float(v) for v in p]


ENT = [([2.], [1., 0]), ([2., 0], [1., 0]), ([3.], [1., 2]), ([1., 0], [1., 1, 0]), ([0.], [1.]),
       ([4.], [1.]), ([1., 0, 0], [1., 0, 0, 0]), ([1., 0], [1., 3, 2])]


def run(case, rep):
    kind = case[0]
    if kind == 'tf':
        d, n = case[1:]
        for q in range(n+1):
            for z in itertools.combinations_with_replacement(sorted(FACT), q):
                num, den = prod(z, -2), prod(d, 4)
                if len(num) <= len(den):
                    for dt in (None, 0.5):
                        tf(rep, 'tf %s/%s dt=%s' % (''.join(z), ''.join(d), dt), [[(num, den)]], dt)
    elif kind == 'mimo':
        (p, m), first, dt = case[1:]
        for rest in itertools.product(range(8), repeat=p*m-1):
            e = [ENT[i] for i in (first,)+rest]
            tf(rep, 'tf %dx%d %s dt=%s' % (p, m, (first,)+rest, dt),
               [e[i*m:(i+1)*m] for i in range(p)], dt)
    elif kind == 'modes':
        s, lab, tier = case[1:]
        bl = c22.blocks(s)
        n = sum(len(x) for x in bl)
        a = np.zeros((n, n))
        k = 0
        for x in bl:
            a[k:k+len(x), k:k+len(x)] = x
            k += len(x)
        for p, m in c22.SHAPES[tier]:
            b, c = c22.inout(bl, lab, p, m)
            for it, t in enumerate(c22.T[n]):
                t = np.array(t, float)
                ti = np.round(np.linalg.inv(t))
                if not np.array_equal(ti@t, np.eye(n)):
                    continue
                for dt in (None, 0.5):
                    ss(rep, 'modes %s lab%s %dx%d T%d dt=%s' % (
                        s, ''.join(map(str, lab)), p, m, it, dt), ti@a@t, ti@b, c@t,
                        np.ones((p, m)) if it == 1 else np.zeros((p, m)), dt)
    elif kind == 'full1':
        for a, b, c in itertools.product(D3, repeat=3):
            for dt in (None, 0.5):
                ss(rep, 'full1 %d %d %d %s' % (a, b, c, dt), [[a]], [[b]], [[c]], [[1]], dt)
    elif kind == 'full2':
        a = np.reshape(case[1], (2, 2))
        for b in itertools.product(D3, repeat=2):
            for c in itertools.product(D3, repeat=2):
                ss(rep, 'full2 %s %s %s' % (case[1], b, c), a, np.reshape(b, (2, 1)),
                   np.reshape(c, (1, 2)), [[0]], None if b[0] else 1.)
    else:
        for k, s in alpha.TRANSFERS.items():
            for dt in (None, 0.5):
                tf(rep, 'named %s %s' % (k, dt), s.e, dt)
        for k, s in alpha.STATES.items():
            for dt in (None, 0.5):
                if s.gain:
                    judge(rep, 'named %s %s' % (k, dt), s.with_dt(dt), s.d.tolist())
                else:
                    ss(rep, 'named %s %s' % (k, dt), s.a, s.b, s.c, s.d, dt)
