"""Poles, zeros and pole tables against exact polynomials."""
import itertools

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, charpoly, zero_poly, fl, trim
from harold import Transfer, State, transfer_to_state, transmission_zeros

D3 = (-1, 0, 1)
A2 = [[0, 0, 0, 0], [1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 0, 0], [0, 1, -1, 0], [0, 1, 1, 0],
      [1, 1, 0, 1], [1, 1, 0, 0], [1, 1, 1, 1], [1, 1, -1, -1], [-1, 1, 0, -1], [0, 0, 1, -1],
      [1, 1, -1, 1], [-1, 0, 0, 0], [1, -1, 1, 0], [0, 1, -1, -1]]
M22 = [[0, 0, 0, 0], [1, 0, 0, 1], [1, 0, 0, 0], [0, 0, 0, 1], [1, 1, 1, 1], [0, 1, 1, 0],
       [1, 1, 0, 1], [1, -1, 0, 0], [1, 0, 1, 0]]
V2 = [[1, 0], [0, 1], [1, 1], [1, -1], [-1, 0], [0, 0]]
A3 = [[1, 0, 0, 0, 0, 0, 0, 0, -1], [1, 1, 0, 0, 1, 1, 0, 0, 1], [0, 1, 0, 0, 0, 1, 0, 0, 0],
      [0, 1, 0, 0, 0, 1, -1, -1, 1], [1, 0, 0, 0, 0, 1, 0, -1, 0], [0, 0, 0, 1, 0, 1, 0, 1, -1],
      [-1, 1, 0, 0, -1, 0, 0, 0, 1], [1, 1, 1, 1, 1, 1, 1, 1, 1]]
M32 = [[1, 0, 0, 1, 0, 0], [1, 0, 0, 0, 0, 1], [0, 0, 1, 0, 0, 1], [1, 1, 1, 1, 1, 1],
       [1, 0, 0, 0, 0, 0], [1, 0, 1, 0, 0, 1], [0, 1, 1, 0, -1, 1], [1, 2, -1, 0, 1, 1],
       [0, 0, 0, 0, 1, 1], [1, -1, 0, 1, 1, 0]]
D22 = [[0, 0, 0, 0], [1, 0, 0, 1], [1, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 0]]
A4 = [[0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, -1, 0, 1, 0], [1, 1, 0, 0, 0, 1, 0, 0, 0, 0, -1, 1, 0, 0, 0, -1],
      [0, 1, 0, 0, -1, 0, 1, 0, 0, 0, 0, 1, 0, 0, -1, 0], [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1]]
M42 = [[1, 0, 0, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 1], [1, 0, 1, 0, 0, 1, 0, 1],
       [1, 1, 1, 1, 1, 1, 1, 1], [0, 0, 0, 0, 0, 0, 1, 1], [1, 0, 0, 0, 0, 1, 0, -1]]
ROOTS = [(-1,), (-2,), (0,), (1,), (2,), (-3,), ('c', -1, 2), ('c', 0, 1), ('c', 1, 1)]
BOUNDS = {
    'quick': 'state models, entries in {-1,0,1}: every 1-state model up to 2x2 channels, every '
             '2-state 1x1 model; products of matrix families for 2 states 2x2/1x2/2x1, 3 states '
             '1x1/2x2, 4 states 2x2; single-channel transfers with every multiset of up to 3 root '
             'factors in numerator and denominator; named MIMO transfers; discrete pole tables',
    'thorough': 'as quick with all 81 state matrices for 2 states 2x2, larger families for 3 and 4 '
                'states and up to 4 root factors'}
ASSUMPTIONS = ['models with zero input or output matrix are left out: their documented zero set is '
               'empty', 'zeros and poles are compared as polynomials, tolerance 1e-5 relative to '
               'the largest coefficient', 'the damping of poles at the integrator position and of '
               'discrete poles at 0 is not judged']
CHUNK = 4


def cases(tier):
    q = tier == 'quick'
    out = []
    for p, m in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for a in D3:
            for b in itertools.product(D3, repeat=m):
                out.append(['full', 1, p, m, [[a]], [list(b)]])
    for a in itertools.product(D3, repeat=4):
        out.append(['full', 2, 1, 1, [list(a)], None])
    for a in (A2 if q else list(itertools.product(D3, repeat=4))):
        out.append(['fam', 2, 2, 2, list(a), M22, M22, M22])
        out.append(['fam', 2, 1, 2, list(a), M22, V2, V2])
        out.append(['fam', 2, 2, 1, list(a), V2, M22, V2])
    v3 = [list(x) for x in itertools.product(D3, repeat=3)]
    for a in A3:
        for b in v3:
            out.append(['fam', 3, 1, 1, a, [b], v3, [[0], [1]]])
        m32 = M32[:8] if q else M32
        for b in m32:
            out.append(['fam', 3, 2, 2, a, [b], [tr(x, 3, 2) for x in m32], D22])
            out.append(['fam', 3, 1, 2, a, [b], v3[13:], [[0, 0], [1, 0]]])
            out.append(['fam', 3, 2, 1, a, v3[13:], [tr(b, 3, 2)], [[0, 0], [0, 1]]])
    for a in A4:
        for b in M42:
            out.append(['fam', 4, 2, 2, a, [b], [tr(x, 4, 2) for x in M42], D22])
    nf = 3 if q else 4
    for k in range(nf+1):
        for num in itertools.combinations_with_replacement(range(len(ROOTS)), k):
            out.append(['siso', list(num), nf])
    out.append(['mimo', [x for x in alpha.TRANSFERS if alpha.TRANSFERS[x].shape != (1, 1)]])
    out.append(['names', list(alpha.STATES)])
    return out


def tr(x, r, c):
    return np.reshape(x, (r, c)).T.ravel().tolist()


def poly_close(rep, key, sig, roots, ref, what):
    """ref: exact monic polynomial."""
    rep.trace()
    roots = np.asarray(roots).ravel()
    ref = fl(ref)
    rep.outcome('%s %d' % (what, ref.size-1))
    if roots.size != ref.size-1:
        rep.violation(key, sig + '-count', '%d %s reported (%s), there are %d (polynomial %s)'
                      % (roots.size, what, np.round(roots, 4).tolist(), ref.size-1, ref.tolist()))
        return False
    if not np.all(np.isfinite(roots)):
        rep.violation(key, sig, 'not finite: %s' % roots.tolist())
        return False
    got = np.atleast_1d(np.poly(roots)) if roots.size else np.ones(1)
    if not rep.close(what, got, ref, 1e-5):
        rep.violation(key, sig, 'reported %s, true polynomial %s'
                      % (np.round(roots, 5).tolist(), ref.tolist()))
        return False
    return True


def table(rep, key, g):
    """The pole table of a model whose poles have been verified."""
    t = call(g.pole_properties)
    stable = getattr(g, '_isstable', None)
    p = np.ravel(g.poles)
    if stable is not None and bool(stable) != bool(
            np.all(p.real < 0 if g.SamplingPeriod is None else np.abs(p) < 1)):
        rep.violation(key, 'stable', 'stable %s with the poles %s' % (stable, p))
    rep.step()
    rep.trace()
    n = np.size(g.poles)
    if isinstance(t, Err):
        rep.violation(key, 'table-raises', repr(t))
        return
    if n == 0:
        if t is not None and np.size(t):
            rep.violation(key, 'table', 'a static gain has a pole table')
        return
    t = np.asarray(t)
    if t.shape != (n, 3) or not np.allclose(t[:, 0], np.ravel(g.poles), rtol=1e-12, atol=1e-12):
        rep.violation(key, 'table', 'first column is not the poles')
        return
    dt = g.SamplingPeriod
    for row in t:
        p = complex(row[0])
        if dt is None:
            s = p
        elif abs(p) < 1e-3:
            continue
        else:
            s = np.log(p)/dt
        w = abs(s)
        if abs(row[1] - w) > 1e-9*(1+w):
            rep.violation(key, 'table-frequency', 'pole %s: %s instead of %s' % (p, row[1], w))
            return
        # an integrator has no damping; close to it the sign is rounding noise
        if w > 1e-3 and abs(row[2] - (-s.real/w)) > 1e-9*(1+1/w):
            rep.violation(key, 'table-damping', 'pole %s: %s instead of %s'
                          % (p, row[2], -s.real/w))
            return


def state_model(rep, key, n, p, m, a, b, c, d, dt=None):
    A, B, C, D = (np.reshape(x, s) for x, s in ((a, (n, n)), (b, (n, m)), (c, (p, n)),
                                                (d, (p, m))))
    rep.state(key)
    rep.step()
    g = call(State, A, B, C, D, dt)
    if isinstance(g, Err):
        rep.violation(key, 'build', repr(g))
        return
    poly_close(rep, key, 'poles', g.poles, charpoly(A.tolist()), 'poles')
    table(rep, key, g)
    if not np.any(B) or not np.any(C):
        rep.skip('zero input or output matrix')
        return
    ref = zero_poly(A.tolist(), B.tolist(), C.tolist(), D.tolist())
    poly_close(rep, key, 'zeros', g.zeros, ref, 'zeros')


def factor(k):
    r = ROOTS[k]
    return [1, -r[0]] if r[0] != 'c' else [1, -2*r[1], r[1]**2+r[2]**2]


def prod(ks):
    q = [1]
    for k in ks:
        q = np.convolve(q, factor(k)).tolist()
    return q


def run(case, rep):
    what = case[0]
    if what == 'full':
        n, p, m, As, Bs = case[1:]
        for a in As:
            for b in Bs or itertools.product(D3, repeat=n*m):
                for c in itertools.product(D3, repeat=n*p):
                    for d in itertools.product(D3, repeat=p*m):
                        key = 'ss n=%d %dx%d a=%s b=%s c=%s d=%s' % (
                            n, p, m, *[','.join(map(str, x)) for x in (a, b, c, d)])
                        state_model(rep, key, n, p, m, a, b, c, d,
                                    0.5 if sum(d) == 1 else None)
    elif what == 'fam':
        n, p, m, a, Bs, Cs, Ds = case[1:]
        for b in Bs:
            for c in Cs:
                for d in Ds:
                    key = 'ss n=%d %dx%d a=%s b=%s c=%s d=%s' % (
                        n, p, m, *[','.join(map(str, x)) for x in (a, b, c, d)])
                    state_model(rep, key, n, p, m, a, b, c, d, 0.1 if sum(d) == 1 else None)
    elif what == 'siso':
        num = prod(case[1])
        for k in range(case[2]+1):
            for ks in itertools.combinations_with_replacement(range(len(ROOTS)), k):
                den = prod(ks)
                if len(den) < len(num):
                    continue
                for gn, gd, dt in ((1, 1, None), (-2, 4, None), (3, -1, 0.25)):
                    key = 'tf num=%s den=%s gains %d %d dt=%s' % (case[1], list(ks), gn, gd, dt)
                    rep.state(key)
                    rep.step()
                    g = call(Transfer, [gn*x for x in num], [gd*x for x in den], dt)
                    if isinstance(g, Err):
                        rep.violation(key, 'build', repr(g))
                        continue
                    poly_close(rep, key, 'poles', g.poles, den, 'poles')
                    poly_close(rep, key, 'zeros', g.zeros, num, 'zeros')
                    table(rep, key, g)
    elif what == 'mimo':
        for name in case[1]:
            spec = alpha.TRANSFERS[name]
            g = spec.build(None)
            rep.state(name)
            rep.step()
            mats = [np.asarray(x) for x in transfer_to_state(g, output='matrices')]
            if mats[0].size == 0:
                poly_close(rep, name, 'poles', g.poles, [1], 'poles')
                continue
            table(rep, name, g)
            from fractions import Fraction
            ex = [[[Fraction(float(x)).limit_denominator(360) for x in r] for r in y]
                  for y in mats]
            if max(np.max(np.abs(np.array(y, float) - x)) for x, y in zip(mats, ex)) > 1e-9:
                rep.skip('realization not a small rational')
                continue
            # poles as a set are the denominators' roots (dynamic, not fully cancelled entries)
            poly_close(rep, name, 'poles', g.poles, charpoly(ex[0]), 'poles')
            want = [r for row in spec.e for nn, dd in row if trim(nn) for r in np.roots(dd)]
            got = np.ravel(g.poles)
            for w in want:
                if np.min(np.abs(got - w)) > 1e-3:
                    rep.violation(name, 'poles-missing', 'denominator root %s not among the poles'
                                  % w)
            want = [r for row in spec.e for nn, dd in row for r in np.roots(dd)]
            for w in got:
                if np.min(np.abs(np.asarray(want) - w)) > 1e-3:
                    rep.violation(name, 'poles-extra', 'pole %s is no denominator root' % w)
            L = 1
            for y in ex:
                for r in y:
                    for x in r:
                        L = L*x.denominator//np.gcd(L, x.denominator)
            L = int(L)
            # scaling s -> L s, system matrix by L keeps everything integer
            A, B, C, D = ([[int(x*L) for x in r] for r in y] for y in ex)
            ref = zero_poly(A, B, C, D)
            # [[sI-LA, -LB],[LC, LD]]: substituting s = L t and dividing by L gives the pencil
            deg = len(ref)-1
            ref = [x/Fraction(L)**k for k, x in enumerate(ref)]
            poly_close(rep, name, 'zeros', g.zeros, ref, 'zeros')
            rep.outcome('mimo degree %d' % deg)
    else:
        for name in case[1]:
            s = alpha.STATES[name]
            if s.gain:
                g = s.build(0.5)
                rep.step()
                poly_close(rep, name, 'poles', g.poles, [1], 'poles')
                poly_close(rep, name, 'zeros', g.zeros, [1], 'zeros')
                table(rep, name, g)
                continue
            k = 2
            state_model(rep, 'named ' + name, s.n, *s.shape, s.a.astype(int), s.b.astype(int),
                        s.c.astype(int)*k, (s.d*k).astype(int), 0.5)
