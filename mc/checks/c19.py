"""Lyapunov and Stein solvers: residual and uniqueness over all block arrangements."""
import itertools

import numpy as np

from ..core import call, Err
from harold import lyapunov_eq_solver

RC = [-1., -2., 0.5, 3., -0.25, 1.5, -4., 0.75]          # no two add up to zero
PC = [(-1., 2.), (0.3, 1.), (-2., 0.5), (0.7, 3.), (-3., 1.)]
RD = [0.5, -0.4, 0., 1.5, 0.8, -3., 0.25, -0.9]          # no two multiply to one
PD = [(0.3, 0.4), (-0.2, 1.3), (0.6, -0.1), (1.2, 0.9), (0.1, 0.7)]
NMAX = {'quick': 7, 'thorough': 9}
BOUNDS = {t: 'every sequence of real (1x1) and complex (2x2) eigenvalue blocks up to order %d x '
          'quasi-triangular with couplings, rotated or scaled coordinates x continuous/discrete x '
          'plain/generalized (identity, triangular, rotated, singular E) x all basis matrices of '
          'the symmetric right-hand sides plus a full one; matrices multiplied by powers of two from 2^-40 to 2^40; integer, list and Fortran-ordered data; '
          'every matrix with entries in {-1,0,1} of order 1 and 2; nonconforming arguments' % n
          for t, n in NMAX.items()}
ASSUMPTIONS = ['equations are judged when the smallest singular value of the linear operator is '
               'above 1e-6 of the largest']
CHUNK = 2
SIZES = [(2.**i, 1.) for i in (-40, -30, -20, 20, 30, 40)] + [(1., 2.**i) for i in (-40, -20, 20, 40)]


def compositions(n):
    if n == 0:
        yield []
    for k in (1, 2):
        if k <= n:
            for r in compositions(n-k):
                yield [k] + r


def cases(tier):
    out = []
    for n in range(1, NMAX[tier]+1):
        for c in compositions(n):
            for form in ('c', 'd'):
                out.append(['blocks', c, form])
    for a in itertools.product((-1, 0, 1), repeat=4):
        out.append(['full2', list(a)])
    return out + [['full1'], ['types'], ['refuse']]


def build(comp, form, variant):
    n = sum(comp)
    a = np.triu(np.ones((n, n)), 1)*0.5
    if variant == 'decoupled':
        a[:] = 0
    rs, ps = (RC, PC) if form == 'c' else (RD, PD)
    k = ir = ip = 0
    for b in comp:
        if b == 1:
            a[k, k] = rs[ir % len(rs)] + 0.01*(ir // len(rs))
            ir += 1
        else:
            s, w = ps[ip]
            # not in standardized form: different off-diagonal sizes
            a[k:k+2, k:k+2] = [[s, w*2], [-w/2, s]]
            ip += 1
        k += b
    if variant == 'rotated':
        q = orth(n)
        a = q.T @ a @ q
    elif variant == 'scaled':
        d = 2.**np.arange(n)
        a = a*d/d[:, None]
    return a


def orth(n):
    v = np.arange(1., n+1)
    return np.eye(n) - 2*np.outer(v, v)/(v@v)


def es(n):
    yield 'none', None
    yield 'eye', np.eye(n)
    t = np.triu(np.ones((n, n))) + np.diag(np.arange(n))
    yield 'tri', t
    yield 'rot', orth(n) @ (np.eye(n)*2)
    s = np.eye(n)
    s[-1, -1] = 0
    yield 'sing', s


def residual(a, x, e, y, form):
    e = np.eye(len(a)) if e is None else e
    if form[0] == 'c':
        return e.T @ x @ a + a.T @ x @ e + y
    return a.T @ x @ a - e.T @ x @ e + y


def regular(a, e, form):
    """Ratio of extreme singular values of the operator, and the smallest one."""
    n = len(a)
    e = np.eye(n) if e is None else e
    k = np.kron(e.T, a.T) + np.kron(a.T, e.T) if form[0] == 'c' else \
        np.kron(a.T, a.T) - np.kron(e.T, e.T)
    s = np.linalg.svd(k, compute_uv=False)
    return s[-1] > 1e-6*max(s[0], 1e-300), s[-1]


def basis(n):
    for i in range(n):
        for j in range(i, n):
            y = np.zeros((n, n))
            y[i, j] = y[j, i] = 1
            yield '%d%d' % (i, j), y
    yield 'full', np.add.outer(np.arange(1., n+1), np.arange(1., n+1)) + 3*np.eye(n)


def judge(rep, key, a, y, e, form, args=None):
    rep.trace()
    rep.step()
    rep.state(key)
    aa, yy, ee = args or (a.copy(), y.copy(), None if e is None else e.copy())
    old = repr((aa, yy, ee))
    r = call(lyapunov_eq_solver, aa, yy, ee, form) if ee is not None else \
        call(lyapunov_eq_solver, aa, yy, form=form)
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    if repr((aa, yy, ee)) != old:
        return rep.violation(key, 'mutated', 'the arguments were changed')
    r = np.asarray(r)
    n = len(a)
    if r.shape != (n, n) or not np.all(np.isfinite(r)):
        return rep.violation(key, 'shape', '%s' % (r,))
    sc = 1e-30 + np.abs(y).max() + np.abs(r).max()*max(1., np.abs(a).max())**(
        1 if form[0] == 'c' else 2)*(1 if e is None else max(1., np.abs(e).max())**2)
    if not rep.close('residual', residual(a, r, e, y, form), 0*y, 1e-9, scale=sc):
        return rep.violation(key, 'residual', 'residual %s' % (
            np.abs(residual(a, r, e, y, form)).max(),))
    if not rep.close('symmetry', r, r.T, 1e-7, scale=1+np.abs(r).max()):
        return rep.violation(key, 'symmetry', 'not symmetric: %s' % (r,))
    rep.outcome('%s n%d%s' % (form[0], n, '' if e is None else ' generalized'))


def sizes(rep, key, a, y, e, form):
    """The same equation with matrices of other sizes has the accordingly scaled solution."""
    x = call(lyapunov_eq_solver, a, y, e, form)
    if isinstance(x, Err):
        return                          # reported already
    for k, w in SIZES:
        if form[0] == 'd' and e is None and k != 1:
            continue
        both = form[0] == 'd'
        rep.trace()
        rep.step()
        rep.state((key, k, w))
        r = call(lyapunov_eq_solver, a*k, y*w, e*k if both and e is not None else e, form)
        kk = '%s sizes %g %g' % (key, k, w)
        if isinstance(r, Err):
            rep.violation(kk, 'refused', repr(r))
        elif not rep.close('sizes', r*(k**2 if both else k)/w, x, 1e-6,
                           scale=np.abs(x).max() or 1.):
            rep.violation(kk, 'sizes', '%s instead of %s' % (r*(k**2 if both else k)/w, x))


def run(case, rep):
    kind = case[0]
    if kind == 'blocks':
        comp, form = case[1:]
        n = sum(comp)
        for v in ('coupled', 'decoupled', 'rotated', 'scaled'):
            a = build(comp, form, v)
            for en, e in es(n):
                if en == 'sing' and form == 'c':
                    continue
                if not regular(a, e, form)[0]:
                    rep.skip('no unique solution')
                    continue
                for yn, y in basis(n):
                    f = form if yn != 'full' else {'c': 'continuous', 'd': 'discrete'}[form]
                    judge(rep, '%s %s %s E=%s Y=%s' % (form, comp, v, en, yn), a, y, e, f)
                if v != 'scaled':
                    sizes(rep, '%s %s %s E=%s' % (form, comp, v, en), a, y, e, form)
    elif kind == 'full2':
        a = np.reshape(case[1], (2, 2)).astype(float)
        for e in [None] + [np.reshape(x, (2, 2)).astype(float) for x in
                           ([1, 0, 0, 1], [1, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, -1], [0, 1, -1, 0],
                            [1, 0, 0, 0], [2, 1, 1, 1])]:
            for form in 'cd':
                if not regular(a, e, form)[0]:
                    rep.skip('no unique solution')
                    continue
                for yn, y in basis(2):
                    judge(rep, '%s full2 %s E=%s Y=%s' % (
                        form, case[1], None if e is None else e.ravel().tolist(), yn), a, y, e,
                        form)
    elif kind == 'full1':
        for a in (-2., -1, 0, 0.5, 1, 3):
            for e in (None, 1., 2., -1., 0.):
                for form in 'cd':
                    A = np.array([[a]])
                    E = None if e is None else np.array([[e]])
                    if not regular(A, E, form)[0] or regular(A, E, form)[1] == 0:
                        rep.skip('no unique solution')
                        continue
                    for y in (1., 0., -3.):
                        judge(rep, '%s full1 %s %s %s' % (form, a, e, y), A, np.array([[y]]), E,
                              form)
                        judge(rep, '%s scalar %s %s %s' % (form, a, e, y), A, np.array([[y]]), E,
                              form, (a, y, e))
    elif kind == 'types':
        for n in (1, 2, 3, 4, 5):
            a = (-2*np.eye(n) + np.triu(np.ones((n, n)), 1) - np.tril(np.ones((n, n)), -1)).astype(int)
            e = (np.eye(n)*3 + np.triu(np.ones((n, n)), 1)).astype(int)
            y = (np.add.outer(np.arange(n), np.arange(n)) + np.eye(n)).astype(int)
            conv = {'int': lambda x: x.copy(), 'list': lambda x: x.tolist(),
                    'fortran': lambda x: np.asfortranarray(x.astype(float)),
                    'float32': lambda x: x.astype(float),
                    'view': lambda x: np.repeat(np.repeat(x.astype(float), 2, 0), 2, 1)[::2, ::2]}
            for form in 'cd':
                for ee in (None, e):
                    if not regular(a.astype(float), None if ee is None else ee.astype(float),
                                   form)[0]:
                        rep.skip('no unique solution')
                        continue
                    for c1, f1 in conv.items():
                        for c2, f2 in conv.items():
                            judge(rep, 'types %s n%d E=%s %s %s' % (
                                form, n, ee is not None, c1, c2), a.astype(float), y.astype(float),
                                None if ee is None else ee.astype(float), form,
                                (f1(a), f2(y), None if ee is None else f1(ee)))
    else:
        i2, i3 = np.eye(2), np.eye(3)
        bad = {'A rect': (np.ones((2, 3)), i2, None, 'c'), 'Y rect': (i2, np.ones((2, 3)), None, 'c'),
               'sizes': (i2, i3, None, 'c'), 'E size': (i2, i2, i3, 'c'), 'A big': (i3, i2, None, 'd'),
               'E rect': (i2, i2, np.ones((2, 3)), 'd'), 'form': (-i2, i2, None, 'x'),
               'form2': (-i2, i2, None, 'C'), 'E3': (i3, i3, i2, 'd')}
        for k, a in bad.items():
            rep.trace()
            rep.step()
            rep.state(k)
            r = call(lyapunov_eq_solver, *a)
            if not isinstance(r, Err):
                rep.violation('refuse ' + k, 'accepted', 'returned %s' % (r,))
            else:
                rep.outcome('refused')
