"""System norms against direct evaluation: impulse energy and frequency sweep."""
import itertools

import numpy as np
from scipy.optimize import minimize_scalar

from ..core import call, Err
from ..ref import Tf, Ss, model_state
from .. import alpha
from harold import Transfer, State, system_norm

CF = {'1': [1, 1], '2': [1, 2], 'l': [1, .1], 'c': [1, 1, 1], 'r': [1, .2, 4], 'd': [1, .02, 1],
      'f': [1, 50]}
DF = {'0': [1, 0], 'h': [1, -.5], 'm': [1, .5], '9': [1, -.9], 'c': [1, 0, .25], 'r': [1, -1.6, .8],
      'n': [1, 1.6, .68]}
CU = {'u': [1, -1], 'v': [1, -1, 1], 'w': [1, -.01], 'y': [1, -.02, 9]}
DU = {'u': [1, 2], 'v': [1, -1, 2], 'w': [1, -1.01], 'y': [1, 1.2]}
CN = {'1': [1], 's': [1, 0], 'z': [1, 3], 'x': [1, -1], 'q': [1, 0, 1], 'p': [2, .1, 3],
      'sq': [1, 0, 1, 0], 'ss': [1, 0, 0], 'b': [-3], '0': [0], 'bp': [1, .2, 4]}
BOUNDS = {
    'quick': 'all proper fractions with 11 numerators over every denominator of up to 3 factors out '
             'of 7 (continuous and discrete; order up to 4), with an added feedthrough, as transfer '
             'and as state model; every such denominator with an unstable factor; rows, columns, '
             'diagonals and full 2x2 of every ordered pair of 12 fractions; gains; both norms',
    'thorough': 'as quick with order up to 5 and ordered pairs of 24 fractions'}
CHUNK = 4
NMAX = {'quick': 4, 'thorough': 5}


def dens(tab, nmax):
    out = []
    for q in (1, 2, 3):
        for c in itertools.combinations_with_replacement(sorted(tab), q):
            d = np.array([1.])
            for x in c:
                d = np.convolve(d, tab[x])
            if len(d)-1 <= nmax:
                out.append((''.join(c), d.tolist()))
    return out


def cases(tier):
    out = []
    for dt, tab in ((None, CF), (0.5, DF)):
        for k, d in dens(tab, NMAX[tier]):
            out.append(['siso', k, d, dt])
        for k, d in dens(tab, 2):
            out.append(['unstable', k, d, dt])
        n = len(PAIRS) if tier == 'thorough' else 12
        for i in range(n):
            out.append(['mimo', i, n, dt])
    return out + [['gain'], ['named'], ['refuse']]


PAIRS = [('1', '1'), ('z', 'c'), ('s', 'r'), ('b', 'd'), ('x', '11'), ('q', 'c1'), ('p', 'r'),
         ('0', '1'), ('sq', 'cr'), ('1', 'f'), ('s', 'l2'), ('z', 'd'),
         ('b', '12'), ('x', 'c'), ('q', '11'), ('p', 'd'), ('s', '1'), ('ss', '11'), ('bp', 'd'),
         ('1', 'cc'), ('z', 'lf'), ('bp', 'r'), ('q', 'd'), ('x', 'r1')]
DEQ = {'1': 'h', '2': 'm', 'l': '9', 'c': 'c', 'r': 'r', 'd': 'n', 'f': '0'}


def entry(i, dt):
    nk, dk = PAIRS[i]
    d = np.array([1.])
    for x in dk:
        d = np.convolve(d, CF[x] if dt is None else DF[DEQ[x]])
    return [float(x) for x in CN[nk]], d.tolist()


def realize(num, den):
    """Controllable companion form."""
    den = np.array(den, float)
    n = len(den)-1
    num = np.concatenate((np.zeros(n+1-len(num)), num))/den[0]
    den = den/den[0]
    d = num[0]
    a = np.zeros((n, n))
    a[0] = -den[1:]
    a[np.arange(1, n), np.arange(n-1)] = 1
    b = np.zeros((n, 1))
    b[0] = 1
    return a, b, (num[1:]-d*den[1:]).reshape(1, n), np.array([[d]])


def h2sq(num, den, dt):
    """Squared impulse response energy."""
    num = np.trim_zeros(np.array(num, float), 'f')
    if not num.size:
        return 0.
    if len(den) == 1:
        return np.inf if dt is None else float((num[0]/den[0])**2)
    a, b, c, d = realize(num, den)
    n = len(a)
    if dt is None:
        if d[0, 0]:
            return np.inf
        x = np.linalg.solve(np.kron(np.eye(n), a)+np.kron(a, np.eye(n)), -(b@b.T).ravel())
        return float(c@x.reshape(n, n)@c.T)
    x = np.linalg.solve(np.eye(n*n)-np.kron(a, a), (b@b.T).ravel())
    return float(c@x.reshape(n, n)@c.T + d[0, 0]**2)


def peak(e, dt):
    """Supremum over frequency of the largest singular value."""
    p, m = len(e), len(e[0])

    def sig(w):
        w = np.atleast_1d(w).astype(float)
        s = np.exp(1j*w) if dt is not None else 1j*w
        v = np.empty((len(w), p, m), complex)
        for i, j in itertools.product(range(p), range(m)):
            v[:, i, j] = np.polyval(e[i][j][0], s)/np.polyval(e[i][j][1], s)
        return np.linalg.norm(v, 2, axis=(1, 2)) if min(p, m) > 1 else np.sqrt(
            np.sum(np.abs(v)**2, axis=(1, 2)))
    roots = np.concatenate([np.roots(d) for r in e for n, d in r] + [[]]).astype(complex)
    if dt is None:
        w = np.concatenate(([0.], np.geomspace(1e-4, 1e6, 3000)))
        c, h = np.abs(roots.imag), np.abs(roots.real)
    else:
        w = np.linspace(0, np.pi, 2000)
        c, h = np.abs(np.angle(roots)), np.abs(1-np.abs(roots))
    near = (c[:, None] + h[:, None]*np.linspace(-5, 5, 401)).ravel()
    near = near[near > 0] if dt is None else near[(near > 0) & (near < np.pi)]
    w = np.unique(np.concatenate((w, near)))
    w = w[np.append(True, np.diff(w) > 1e-7*(1+w[1:]))]
    v = sig(w)
    best = v.max()
    top = [i for i in range(1, len(w)-1) if v[i] >= v[i-1] and v[i] >= v[i+1]
           and v[i] > best*.9 and 2*v[i]-v[i-1]-v[i+1] > 1e-12*best]
    for i in sorted(top, key=lambda i: -v[i])[:6]:
        r = minimize_scalar(lambda x: -sig(x)[0], bounds=(w[i-1], w[i+1]), method='bounded',
                            options={'xatol': 1e-12*(1+w[i])})
        best = max(best, -r.fun)
    if dt is None:                      # infinite frequency
        lim = np.array([[n[0]/d[0] if len(n) == len(d) else 0. for n, d in
                         ((np.trim_zeros(np.array(n, float), 'f'), d) for n, d in r)] for r in e])
        best = max(best, np.linalg.norm(lim, 2))
    return best


def block_state(e, dt):
    """State model with one companion block per entry."""
    p, m = len(e), len(e[0])
    a, b, c, d = [], [], [], np.zeros((p, m))
    for i, j in itertools.product(range(p), range(m)):
        n, q = e[i][j]
        if len(q) == 1:
            d[i, j] = n[0]/q[0]
            continue
        ak, bk, ck, dk = realize(n, q)
        d[i, j] = dk[0, 0]
        a.append(ak)
        b.append(np.zeros((len(ak), m)))
        b[-1][:, [j]] = bk
        c.append(np.zeros((p, len(ak))))
        c[-1][[i]] = ck
    if not a:
        return Ss(None, None, None, d, dt)
    n = sum(len(x) for x in a)
    aa, k = np.zeros((n, n)), 0
    for x in a:
        aa[k:k+len(x), k:k+len(x)] = x
        k += len(x)
    return Ss(aa, np.vstack(b), np.hstack(c), d, dt)


def check(rep, key, e, dt, stable=True, kinds='TS'):
    rep.state(key)
    rep.trace()
    if stable:
        h2 = np.sqrt(sum(h2sq(n, d, dt) for r in e for n, d in r))
        hi = peak(e, dt)
    else:
        h2 = hi = np.inf
    for kind in kinds:
        g = (Tf(e, dt) if kind == 'T' else block_state(e, dt)).build()
        before = model_state(g)
        for p, ref in ((2, h2), (np.inf, hi)):
            rep.step()
            k = '%s %s %s' % (key, kind, p)
            r = call(system_norm, g, p)
            if model_state(g) != before:
                return rep.violation(k, 'mutated', 'the model was changed')
            if isinstance(r, Err):
                return rep.violation(k, 'refused', '%r, norm is %g' % (r, ref))
            if np.ndim(r) or np.iscomplexobj(r):
                return rep.violation(k, 'form', repr(r))
            if np.isinf(ref):
                if not (np.isinf(r) and r > 0):
                    return rep.violation(k, 'infinite', '%r, norm is infinite' % r)
            elif not rep.close('h%s %s' % (p, kind), r, ref, 1e-3 if kind == 'T' else 1e-5, 1e-7+ref):
                return rep.violation(k, 'norm', '%r, norm is %r' % (r, ref))
        if not np.isinf(hi):
            r = call(system_norm, g)
            if isinstance(r, Err) or not rep.close('default', r, hi, 1e-3, 1e-7+hi):
                return rep.violation(key, 'default', repr(r))
    rep.outcome('%s %s' % ('finite' if np.isfinite(hi) else 'inf',
                           'finite' if np.isfinite(h2) else 'inf'))


def run(case, rep):
    kind = case[0]
    if kind == 'siso':
        k, d, dt = case[1:]
        for nk, n in CN.items():
            if len(n) <= len(d):
                n = [float(x) for x in n]
                check(rep, 'siso %s/%s dt=%s' % (nk, k, dt), [[(n, d)]], dt)
                if len(n) < len(d):
                    check(rep, 'siso %s/%s+2 dt=%s' % (nk, k, dt),
                          [[(np.polyadd(n, np.multiply(2, d)).tolist(), d)]], dt)
    elif kind == 'unstable':
        k, d, dt = case[1:]
        for uk, u in (CU if dt is None else DU).items():
            q = np.convolve(d, u).tolist()
            for nk in ('1', 'z', 'b', 'p'):
                if len(CN[nk]) <= len(q):
                    check(rep, 'unstable %s/%s%s dt=%s' % (nk, k, uk, dt),
                          [[([float(x) for x in CN[nk]], q)]], dt, False)
            check(rep, 'unstable mimo %s%s dt=%s' % (k, uk, dt),
                  [[([1.], d), ([1.], q)], [([0.], [1.]), ([2.], d)]], dt, False)
    elif kind == 'mimo':
        i, n, dt = case[1:]
        x = entry(i, dt)
        zero = ([0.], [1.])
        for j in range(n):
            y = entry(j, dt)
            for nm, e in (('row', [[x, y]]), ('col', [[x], [y]]), ('diag', [[x, zero], [zero, y]]),
                          ('full', [[x, y], [y, x]]), ('mix', [[x, ([2.], [1.])], [y, x]])):
                check(rep, 'mimo %s %d %d dt=%s' % (nm, i, j, dt), e, dt,
                      kinds='TS' if nm != 'full' else 'S')
    elif kind == 'gain':
        for sh in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for v in itertools.product((-2., 0., 1.), repeat=sh[0]*sh[1]):
                e = [[([v[i*sh[1]+j]], [1.]) for j in range(sh[1])] for i in range(sh[0])]
                for dt in (None, 0.5):
                    check(rep, 'gain %s %s dt=%s' % (sh, v, dt), e, dt)
    elif kind == 'named':
        # a hidden mode does not contribute
        for dt in (None, 0.5):
            x = ([1., .3], [1., .5, .06])          # cancels (s+.3)
            check(rep, 'hidden %s' % dt, [[x]], dt)
            check(rep, 'hidden row %s' % dt, [[x, ([1.], [1., .5])]], dt)
            # poles on the stability boundary
            for nm, a in (('i', [[0.]]), ('o', [[0., 1], [-1, 0]]), ('ii', [[0., 1], [0, 0]]),
                          ('si', [[-1., 0], [0, 0]])) if dt is None else (
                    ('i', [[1.]]), ('-', [[-1.]]), ('si', [[.5, 0], [0, 1.]])):
                a = np.array(a)
                for d in (0., 1.):
                    key = 'boundary %s %s dt=%s' % (nm, d, dt)
                    rep.state(key)
                    rep.trace()
                    for p in (2, np.inf):
                        rep.step()
                        r = call(system_norm, State(a, np.ones((len(a), 1)), np.ones((1, len(a))),
                                                    [[d]], dt), p)
                        if isinstance(r, Err) or not np.isinf(r):
                            rep.violation(key, 'infinite', repr(r))
            z = ([0.], [1., .5])
            check(rep, 'zero dynamic %s' % dt, [[z]], dt)
            check(rep, 'zero dynamic row %s' % dt, [[z, z]], dt)
            check(rep, 'zero dynamic 2x2 %s' % dt, [[z, z], [z, z]], dt)
    elif kind == 'refuse':
        g = Transfer([1], [1, 1])
        for p in (1, 3, 'a', 'inf', 2j, None, -np.inf, 0):
            refuse(rep, p, g, p)
        for x in (1, 'a', np.eye(2), None):
            refuse(rep, 2, x, 2)


def refuse(rep, p, *a):
    rep.step()
    r = call(system_norm, *a)
    if not isinstance(r, Err) or r.name not in ('ValueError', 'TypeError'):
        return rep.violation('refuse %r' % (a[1:],), 'not refused', repr(r))
    rep.outcome('refused')
