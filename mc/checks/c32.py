"""Tolerance arguments: what is below them is nothing, what is above them is something."""
import itertools

import numpy as np

from ..core import call, Err
from ..ref import obj_values
from .. import env
from harold import (pair_complex_numbers, haroldsvd, minimal_realization, kalman_decomposition,
                    haroldlcm, haroldgcd, haroldker, haroldpolydiv, lyapunov_eq_solver,
                    controllability_indices, system_norm, feedback,
                    is_kalman_controllable, is_kalman_observable, controllability_matrix,
                    observability_matrix, ackermann, simulate_linear_system, simulate_step_response,
                    simulate_impulse_response, staircase, undiscretize,
                    state_to_transfer, transfer_to_state, State, Transfer)

PAIRS = ((1, 2), (-1, 3), (0, 1), (-2, .5))
TOLS = (None, 1e-12, 1e-9, 1e-6, 1e-3)
RATIOS = (1/64, 1/4, 4, 64)
BOUNDS = {'quick': 'differences of 1/64, 1/4, 4 and 64 times the tolerance (1/128 and 128 for hidden modes), '
          'for the default and for tolerances from 1e-12 to 1e-2. Pairing: one or two of 4 conjugate '
          'pairs, with and without a real number, every member and both parts displaced, either sign, '
          'all orders; numbers and pairs with small imaginary parts. Ranks: every choice of up to 3 '
          'singular values among one and values around the tolerance, 5 shapes, 3 bases. Reduction: '
          'hidden modes of order 2 and 3 models through weak inputs or outputs, pole-zero pairs at 5 '
          'places with 3 companions, alone and as any entry of a matrix. Decomposition and least common multiple: every set of up to 2 '
          'small entries. Indices: chains of 2 to 4 states cut at every place. Norms: 4 dampings, 3 '
          'sizes, 6 convergence tolerances. Small but real quantities 1e-2..1e-7 without a tolerance: '
          'loops, dc gains, reachability, locations, time grids, coefficients, stability margins, '
          'nearly common roots, nearly singular back-conversions, stability flags, dampings, zeros, matrix '
          'equations, kernels, quotients and decompositions'}
BOUNDS['thorough'] = BOUNDS['quick']
ASSUMPTIONS = ['the random draws inside the hidden-mode search are answered by a fixed sequence',
               'the least common multiple is judged for polynomials with roots of magnitude about one']
CHUNK = 1
DELTAS = (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7)


def cases(tier):
    out = [[k, i] for k in ('pair', 'real', 'rank', 'mode', 'zero', 'kalman', 'lcm', 'chain')
           for i in range(len(TOLS))]
    out += [['norm', i] for i in range(4)]
    return out + [['small', k, i] for k in SMALL for i in range(len(DELTAS))]


def begin(rep, *parts):
    key = ' '.join(str(x) for x in parts)
    rep.state(key)
    rep.step()
    rep.trace()
    return key


def opt(name, tol):
    return {} if tol is None else {name: tol}


def pair(rep, tol):
    t = tol or 1e-9
    for k in (1, 2):
        for ps in itertools.permutations(PAIRS, k):
            for extra in ([], [3.]):
                for member, part, sign, ratio in itertools.product((0, 1), (1, 1j), (1, -1), RATIOS):
                    z = [complex(x, s*y) for x, y in ps for s in (1, -1)]
                    ref = list(z)
                    z[member] += part*sign*ratio*t
                    for order in range(2):
                        arg = (extra + z)[::-1] if order else z + extra
                        key = begin(rep, 'pair', tol, ps, len(extra), member, part, sign, ratio, order)
                        r = call(pair_complex_numbers, arg, **opt('tol', tol))
                        if ratio > 1:
                            if not isinstance(r, Err) or r.name != 'ValueError':
                                rep.violation(key, 'paired', '%s are no conjugates: %r' % (arg, r))
                            rep.outcome('not a pair')
                            continue
                        if isinstance(r, Err):
                            rep.violation(key, 'refused', '%s: %r' % (arg, r))
                            continue
                        r = list(np.asarray(r)[len(extra):])
                        if len(r) != 2*k or any(r[i] != np.conj(r[i+1]) for i in range(0, 2*k, 2)):
                            rep.violation(key, 'no pairs', '%s gives %s' % (arg, r))
                        elif any(min(abs(np.array(r)-x)) > t for x in ref):
                            rep.violation(key, 'values', '%s gives %s' % (arg, r))
                        rep.outcome('pair')


def real(rep, tol):
    t = tol or 1e-9
    for x in (0., 1., -2.):
        for sign, ratio, two, other in itertools.product((1, -1), RATIOS, (False, True), (False, True)):
            arg = [complex(x, sign*ratio*t)]
            if two:
                arg += [arg[0].conjugate()]
            arg += [5+2j, 5-2j] if other else [7.]
            key = begin(rep, 'real', tol, x, sign, ratio, two, other)
            r = call(pair_complex_numbers, arg, **opt('realness_tol', tol))
            if ratio > 1 and not two:
                if not isinstance(r, Err) or r.name != 'ValueError':
                    rep.violation(key, 'accepted', '%s: %r' % (arg, r))
                rep.outcome('lonely')
                continue
            if isinstance(r, Err) or len(r) != len(arg):
                rep.violation(key, 'refused', '%s: %r' % (arg, r))
                continue
            near = [z for z in r if abs(z-x) < 1]
            if len(near) != 1+two or any((np.imag(z) != 0) != (ratio > 1) for z in near) \
                    or any(abs(abs(z-x)-(ratio*t if ratio > 1 else 0)) > 1e-3*t + 1e-15 for z in near):
                rep.violation(key, 'realness', '%s gives %s' % (arg, r))
            rep.outcome('complex' if ratio > 1 else 'real')


def rank(rep, tol):
    c, s = .6, .8
    rot = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]]) @ np.array([[1., 0, 0], [0, c, -s], [0, s, c]])
    for p, m in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        k = min(p, m)
        t = max(p, m)*np.spacing(1.) if tol is None else tol
        for sv in itertools.combinations_with_replacement(('one', 'zero') + RATIOS, k):
            if tol is None and 'one' not in sv:
                continue
            sv = [{'one': 1., 'zero': 0.}.get(x, None) if isinstance(x, str) else x*t for x in sv]
            ref = sum(x > t for x in sv)
            for basis in ('plain', 'flip', 'rotated'):
                a = np.zeros((p, m))
                a[range(k), range(k)] = sv
                if basis == 'flip':
                    a = -a[::-1, ::-1]
                elif basis == 'rotated':
                    if tol is None or tol < 1e-10:
                        continue
                    q = [rot[:n, :n] if n == 3 else np.array([[c, -s], [s, c]])[:n, :n]
                         for n in (p, m)]
                    a = (q[0] @ a @ q[1]) if 1 not in (p, m) else a
                key = begin(rep, 'rank', tol, p, m, sv, basis)
                r = call(haroldsvd, a, True, **opt('rank_tol', tol))
                if isinstance(r, Err) or r[3] != ref:
                    rep.violation(key, 'rank', '%r instead of %d' % (r if isinstance(r, Err) else r[3], ref))
                rep.outcome('rank %d' % ref)


def draws(*s):
    k = int(np.prod(s))
    return np.modf((np.arange(k)+1)*0.6180339887)[0].reshape(s)


def mode(rep, tol):
    t = tol or 1e-6
    if t > 1e-4:
        t = tol = 1e-4
    for n in (2, 3):
        for weak, side, ratio, dt, (p, m) in itertools.product(
                range(n), 'bc', (1/128, 128), (None, 1.), ((1, 1), (1, 2), (2, 1), (2, 2))):
            a = np.diag([-1., -2, .5][:n])/(4 if dt else 1)
            b, c = np.ones((n, m)), np.ones((p, n))
            b[:, 1:] = [[1.], [-1], [2]][:n]
            c[1:] = [1., 2, -1][:n]
            if side == 'b':
                b[weak] *= ratio*t
            else:
                c[:, weak] *= ratio*t
            key = begin(rep, 'mode', tol, n, weak, side, ratio, dt, p, m)
            g = State(a, b, c, np.ones((p, m)), dt)
            with env.scripted(rand=draws):
                r = call(minimal_realization, g, **opt('tol', tol))
            if isinstance(r, Err) or r.NumberOfStates != n-(ratio < 1):
                rep.violation(key, 'order', repr(r))
            elif not rep.close('mode', obj_values(r), obj_values(g), 1e-8 if ratio > 1 else 10*t):
                rep.violation(key, 'value', 'other behaviour')
            rep.outcome('kept' if ratio > 1 else 'removed')


def zero(rep, tol):
    t = tol or 1e-6
    if t < 1e-9:
        t = tol = 1e-8
    for place in (0., -1., -.5, 2., complex(-1, 2)):
        for ratio, sign, extra, dt in itertools.product(RATIOS, (1, -1), ([], [-4.], [-4., 5.]), (None, 1.)):
            d = ratio*sign*t*(1+abs(place))
            z, q = [place], [place+d]
            if isinstance(place, complex):
                z, q = z+[place.conjugate()], q+[np.conj(place+d)]
            num, den = 3*np.atleast_1d(np.poly(z)).real, np.atleast_1d(np.poly(q+extra)).real
            key = begin(rep, 'zero', tol, place, ratio, sign, extra, dt)
            drop = len(z) if ratio < 1 else 0
            size = len(num)-drop, len(den)-drop
            r = call(minimal_realization, Transfer(num, den, dt), **opt('tol', tol))
            if isinstance(r, Err) or (np.size(r.num), np.size(r.den)) != size:
                rep.violation(key, 'degrees', repr(r))
            for shape in ((1, 2), (2, 1), (2, 2)):
                for i, j in itertools.product(*map(range, shape)):
                    key = begin(rep, 'zero', tol, place, ratio, sign, extra, dt, shape, i, j)
                    ns, ds = ([[x if (k, l) == (i, j) else y for l in range(shape[1])]
                               for k in range(shape[0])] for x, y in ((num, [1., 7]), (den, [1., 9, 8])))
                    r = call(minimal_realization, Transfer(ns, ds, dt), **opt('tol', tol))
                    if isinstance(r, Err) or any(
                            (np.size(r.num[k][l]), np.size(r.den[k][l])) != (size if (k, l) == (i, j) else (2, 3))
                            for k in range(shape[0]) for l in range(shape[1])):
                        rep.violation(key, 'degrees', repr(r))
            rep.outcome('kept' if ratio > 1 else 'cancelled')


def kalman(rep, tol):
    spots = [('a', 0, 2), ('a', 2, 1), ('b', 1, 0), ('c', 0, 1), ('a', 1, 1), ('d', 0, 0)]
    for k in (0, 1, 2):
        for sp in itertools.combinations(spots, k):
            for rs in itertools.product(RATIOS, repeat=k):
                for off in (False, True):
                    t = tol or 1e-9
                    m = {'a': np.array([[0., 1, 0], [0, 0, 1], [1, 0, 0]]), 'b': np.array([[0.], [0], [1]]),
                         'c': np.array([[1., 0, 0]]), 'd': np.array([[0.]])}
                    ref = {x: m[x].copy() for x in m}
                    for (x, i, j), r in zip(sp, rs):
                        m[x][i, j] = r*t
                        ref[x][i, j] = r*t if r > 1 or off or x == 'd' else 0.
                    key = begin(rep, 'kalman', tol, sp, rs, off)
                    kw = {'cleanup_threshold': 0.} if off else opt('cleanup_threshold', tol)
                    g = State(*(m[x] for x in 'abcd'))
                    r = call(kalman_decomposition, g, **kw)
                    if isinstance(r, Err):
                        rep.violation(key, 'refused', repr(r))
                        continue
                    for x, y in zip('abcd', r.matrices):
                        if not np.allclose(y, ref[x], 1e-9, 0):
                            rep.violation(key, 'entries', '%s: %s instead of %s' % (x, y, ref[x]))
                    rep.outcome('clean')


def lcm(rep, tol):
    t = tol or 1e-9
    if t < 1e-10:
        t = tol = 1e-10
    for first in ([1., 0, 1], [1., 1], [1., 0, 0, 1]):
        for ratio, sign, off, turn in itertools.product(RATIOS, (1, -1), (False, True), (False, True)):
            e = ratio*sign*t
            args = [np.array(first), np.array([1., e, 2])]
            key = begin(rep, 'lcm', tol, first, ratio, sign, off, turn)
            kw = {'cleanup_threshold': 0.} if off else opt('cleanup_threshold', tol)
            r = call(haroldlcm, *args[::-1 if turn else 1], **kw)
            if isinstance(r, Err):
                rep.violation(key, 'refused', repr(r))
                continue
            x = r[1][1 if turn else 0]
            want = e if off or ratio > 1 else 0.
            if x.size != 3 or (want == 0. and x[1] != 0.) \
                    or not np.allclose(x, [1., want, 2], 0, max(1e-12, abs(want)*1e-2)):
                rep.violation(key, 'cofactor', '%s, difference %g' % (x, e))
            rep.outcome('kept' if want else 'cleaned')


def chain(rep, tol):
    for n in (2, 3, 4):
        t = tol or np.sqrt(np.spacing(1.))*n**2
        for cut, ratio, m in itertools.product(range(n-1), RATIOS, (1, 2)):
            a = np.diag(np.ones(n-1), -1)
            a[cut+1, cut] = ratio*t
            b = np.eye(n)[:, [0]]
            if m == 2:
                a, b = np.kron(np.eye(2), a), np.kron(np.eye(2), b)
                t2 = tol or np.sqrt(np.spacing(1.))*(2*n)**2
                a[a == ratio*t] = ratio*t2
            ref = n if ratio > 1 else cut+1
            key = begin(rep, 'chain', tol, n, cut, ratio, m)
            r = call(controllability_indices, a, b, **opt('tol', tol))
            if isinstance(r, Err) or list(r) != [ref]*m:
                rep.violation(key, 'indices', '%r instead of %d' % (r, ref))
            rep.outcome('index %d' % ref)


def norm(rep, zeta):
    z = (.5, .1, .01, .001)[zeta]
    ref = 1/(2*z*np.sqrt(1-z**2))
    a, b, c = np.array([[0., 1], [-1, -2*z]]), np.array([[0.], [1]]), np.array([[1., 0]])
    for size, ht, et in itertools.product((1, 2, 3), (None, 1e-12, 1e-9, 1e-6, 1e-3, 1e-2),
                                          (None, 1e-9, 1e-7)):
        i = np.eye(size)
        g = State(np.kron(i, a), np.kron(i, b), np.kron(np.diag([1., .5, .25][:size]), c))
        key = begin(rep, 'norm', z, size, ht, et)
        kw = opt('hinf_tol', ht)
        kw.update(opt('eig_tol', et))
        r = call(system_norm, g, **kw)
        if isinstance(r, Err) or not np.isscalar(r) or not abs(r/ref-1) <= max(1e-6, 2*(ht or 1e-6)):
            rep.violation(key, 'norm', '%r instead of %r' % (r, ref))
        rep.outcome('norm')


def fail(rep, key, r, ref, tol=1e-6):
    if isinstance(r, Err):
        rep.violation(key, 'refused', repr(r))
    elif not rep.close(key.split()[0], np.asarray(r, complex), np.asarray(ref, complex), tol):
        rep.violation(key, 'value', '%r instead of %r' % (r, ref))
    rep.outcome('small')


def refused(rep, key, r):
    if not isinstance(r, Err):
        rep.violation(key, 'accepted', repr(r)[:200])
    rep.outcome('refused')


def loop(rep, e):
    for sign, k, dyn, n in itertools.product((1, -1), (1., .5, 8.), (False, True), (1, 2)):
        d = np.diag([k, 2.][:n])
        h = np.diag([(1-sign*e)/k, 0.][:n])
        i = np.eye(n)
        g = State(-i, i, i, d) if dyn else State(d)
        key = begin(rep, 'loop', e, sign, k, dyn, n)
        r = call(feedback, g, h, False)
        fail(rep, key, r if isinstance(r, Err) else r.d*e, d @ np.diag([sign, e][:n]), 1e-6)


def gain(rep, e):
    for dt, sign, kind, other in itertools.product((None, .5), (1, -1), 'ts', (0, 1, 2)):
        p = (1. if dt else 0.) - sign*e
        den = np.poly([p] + [-.5]*other)
        x = 1. if dt else 0.
        for num in ([1.], [1., .25], [1., 3*e-x], [1., -e-x]):
            g = Transfer(num, den, dt)
            ref = np.polyval(num, x)/np.polyval(den, x)
            key = begin(rep, 'gain', e, dt, sign, kind, other, num)
            if kind == 's':
                a = np.diag(np.ones(len(den)-2), 1)
                a[-1] = -den[:0:-1]
                d = num[0] if len(num) == len(den) else 0.
                c = np.r_[np.zeros(len(den)-len(num)), num] - d*den
                g = State(a, np.eye(len(a))[:, [-1]], c[None, :0:-1], d, dt)
            r = call(lambda: np.ravel(g.dcgain)/ref)
            fail(rep, key, r, [1.], 1e-6)


def rankd(rep, e):
    for n, cut in ((2, 0), (3, 0), (3, 1)):
        a = np.diag(np.ones(n-1), -1)
        a[cut+1, cut] = e
        b = np.eye(n)[:, [0]]
        for name, f, arg in (('c', is_kalman_controllable, (a, b)),
                             ('o', is_kalman_observable, (a.T, b.T))):
            key = begin(rep, 'reach', e, n, cut, name)
            g = State(a, b, b.T) if name == 'c' else State(a.T, b, b.T)
            for x in (arg, g):
                r = call(f, x)
                if r is not True and r is not np.True_:
                    rep.violation(key, 'answer', repr(r))
            r = call(controllability_matrix if name == 'c' else observability_matrix, g)
            if isinstance(r, Err) or r[2] != n:
                rep.violation(key, 'rank', repr(r))
        key = begin(rep, 'stairs', e, n, cut)
        r = call(staircase, a, b, b.T)
        if isinstance(r, Err) or abs(abs(np.prod(np.diag(r[0], -1)))/e-1) > 1e-6:
            rep.violation(key, 'links', repr(r))
        r = call(staircase, a.T, b, b.T, form='o', invert=True)
        if isinstance(r, Err) or abs(np.linalg.matrix_rank(r[0])-n+1) > 0:
            rep.violation(key, 'links', repr(r))
        rep.outcome('rank')


def place(rep, e):
    for x in (-1., -2.):
        for loc in ([complex(x, e), -3.], [complex(x, e), complex(x, 1e-20)],
                    [complex(x, 1), complex(x, -1-e)], [complex(x, 1), complex(x+e, -1)]):
            key = begin(rep, 'place', e, x, loc)
            refused(rep, key, call(ackermann, (np.array([[0., 1], [0, 0]]), np.array([[0.], [1]])), loc))


def times(rep, e):
    if e < 1e-4:
        return
    for k, pos, sign, n in itertools.product(range(3), range(1, 6), (1, -1), (1, 2)):
        t = np.arange(6.)*.5
        t[pos] += sign*e
        g = State(-np.eye(n), np.eye(n), np.eye(n))
        f = (lambda: simulate_step_response(g, t), lambda: simulate_impulse_response(g, t),
             lambda: simulate_linear_system(g, np.ones((6, n)), t))[k]
        key = begin(rep, 'times', e, k, pos, sign, n)
        refused(rep, key, call(f))
    for k, sign in itertools.product(range(3), (1, -1)):
        g = State(.5, 1., 1., 0., .5)
        t = np.arange(6.)*(.5+sign*e)
        f = (lambda: simulate_step_response(g, t), lambda: simulate_impulse_response(g, t),
             lambda: simulate_linear_system(g, np.ones((6, 1)), t))[k]
        key = begin(rep, 'period', e, k, sign)
        refused(rep, key, call(f))


def coeff(rep, e):
    w = np.array([1., 1/e, 10/e])
    for num, den, dt in itertools.product(([e, 1], [1, e], [e, 1, 1], [1, e, e**2], [e, -1], [1, 1, e]),
                                          ([1., 3, 2], [1., 2, 2, 1]), (None, .5)):
        g = Transfer(num, den, dt)
        key = begin(rep, 'coefficient', e, num, den, dt)
        pts = 1j*w if dt is None else np.exp(1j*np.array([0., 1, 2, 3.14159]))
        ref = np.polyval(num, pts)/np.polyval(den, pts)

        def ratio(f):
            x = f(g)
            if isinstance(x, State):
                x = [x.c @ np.linalg.solve(p*np.eye(len(x.a))-x.a, x.b) + x.d for p in pts]
                return np.ravel(x)/ref
            return np.polyval(x.num[0], pts)/np.polyval(x.den[0], pts)/ref
        fail(rep, key + ' state', call(ratio, transfer_to_state), np.ones(len(pts)))
        fail(rep, key + ' back', call(ratio, lambda x: state_to_transfer(transfer_to_state(x))),
             np.ones(len(pts)), 1e-4)


def weak(rep, e):
    for dt, n in itertools.product((None, 1.), (1, 2)):
        p = 1-e if dt else -e
        g = State(np.diag([p, .5 if dt else -1.][:n]), np.ones((n, 1)), np.ones((1, n)), 0, dt)
        x = 1. if dt else 0.
        ref = sum(1/(x-y) for y in np.diag(g.a))
        key = begin(rep, 'margin', e, dt, n)
        r = call(system_norm, g)
        fail(rep, key, r if isinstance(r, Err) else r*e, ref*e, 1e-5)
        a = g.a
        ref = sum(1/(1-u*v) if dt else -1/(u+v) for u in np.diag(a) for v in np.diag(a))
        r = call(system_norm, g, 2)
        fail(rep, key + ' two', r if isinstance(r, Err) else r**2*e, ref*e, 1e-5)
        p = 1+e if dt else e
        g = State(np.diag([p, .5 if dt else -1.][:n]), np.ones((n, 1)), np.ones((1, n)), 0, dt)
        for q in (2, np.inf):
            r = call(system_norm, g, q)
            if isinstance(r, Err) or r != np.inf:
                rep.violation(key + ' unstable', 'norm', repr(r))
    for q in (2,):
        r = call(system_norm, State(-1, 1, 1, e), q)
        if isinstance(r, Err) or r != np.inf:
            rep.violation(begin(rep, 'through', e), 'norm', repr(r))


def common(rep, e):
    for a, b in (([1., 1], [1., 1+e]), ([1., 3, 2], [1., 3+e, 2+2*e]), ([1., 0, 1], [1., 0, 1+e]),
                 ([1., 3, 2], [1., 5+e, 6+3*e])):
        key = begin(rep, 'common', e, a, b)
        want = [1., 2] if len(a) == 3 and a[1] and abs(np.polyval(b, -2)) < 1e-12 else [1.]
        r = call(haroldgcd, a, b)
        if isinstance(r, Err) or np.size(r) != len(want):
            rep.violation(key, 'gcd', repr(r))
        r = call(haroldlcm, a, b)
        if isinstance(r, Err) or np.size(r[0]) != len(a)+len(b)-len(want):
            rep.violation(key, 'lcm', repr(r))
        rep.outcome('polynomials')


def bilinear(rep, e):
    for m, sign in itertools.product(('tustin', 'forward euler', 'backward euler'), (1, -1)):
        p = {'tustin': -1+sign*e, 'backward euler': sign*e, 'forward euler': 1+sign*e}[m]
        g = State(p, 1., 1., 0., 1.)
        key = begin(rep, 'undo', e, m, sign)
        s = {'tustin': 2*(p-1)/(p+1), 'backward euler': (p-1)/p, 'forward euler': p-1}[m]
        r = call(undiscretize, g, m)
        fail(rep, key, r if isinstance(r, Err) else np.ravel(r.poles)*e, [s*e])


def flags(rep, e):
    for dt, sign, n, kind in itertools.product((None, .5), (1, -1), (1, 2), 'ts'):
        p = (1. if dt else 0.) + sign*e
        g = State(np.diag([p, -.5][:n]), np.ones((n, 1)), np.ones((1, n)), 0, dt)
        if kind == 't':
            g = Transfer(1., np.poly([p, -.5][:n]), dt)
        key = begin(rep, 'stable', e, dt, sign, n, kind)
        r = getattr(g, '_isstable', None)
        if r is not None and bool(r) != (sign < 0):
            rep.violation(key, 'flag', repr(r))
        rep.outcome('flag')


def damp(rep, e):
    for w, dt, kind in itertools.product((1., .5, 3.), (None, .5), 'ts'):
        s = np.array([complex(-e, q*np.sqrt(1-e*e)) for q in (1, -1)])*w
        p = np.exp(s*dt) if dt else s
        den = np.poly(p).real
        g = Transfer(1., den, dt) if kind == 't' else \
            State(np.array([[p[0].real, p[0].imag], [-p[0].imag, p[0].real]]), [[0.], [1]], [[1., 0]], 0, dt)
        key = begin(rep, 'damping', e, w, dt, kind)
        r = call(g.pole_properties)
        fail(rep, key, r if isinstance(r, Err) else np.real(np.array(r)[:, 2])/e, [1., 1.], 1e-4)
        fail(rep, key + ' frequency', r if isinstance(r, Err) else np.real(np.array(r)[:, 1])/w, [1., 1.])


def zeros(rep, e):
    for z in ([-e], [e], [-1., -1-e], [-e, e], [-2., -e]):
        if e < 1e-5 and len(z) == 2 and z[0] != -2.:
            continue    # nearly double, lost in rounding
        den = np.poly([-.5, -3., -4.][:len(z)+1])
        n = len(den)-1
        a = np.diag(np.ones(n-1), 1)
        a[-1] = -den[:0:-1]
        num = np.r_[np.zeros(n-len(z)), 2*np.poly(z)]
        for g in (State(a, np.eye(n)[:, [-1]], num[None, ::-1][:, :n]), Transfer(num, den),
                  State(np.kron(np.eye(2), a), np.kron(np.eye(2), np.eye(n)[:, [-1]]),
                        np.kron(np.eye(2), num[None, ::-1][:, :n]))):
            key = begin(rep, 'zeros', e, z, type(g).__name__, g.NumberOfInputs)
            r = call(lambda: np.sort(np.real(g.zeros)))
            ref = np.sort(z*g.NumberOfInputs)
            if not isinstance(r, Err) and r.shape != ref.shape:
                rep.violation(key, 'number', repr(r))
            else:
                fail(rep, key, r if isinstance(r, Err) else (r-ref)/e, 0*ref, 1e-2)


def lyap(rep, e):
    for form, sign, gen, n in itertools.product('cd', (1, -1), (False, True), (1, 2, 3, 4)):
        p = [-sign*e, 1.] if form == 'c' else [1-sign*e, 1.]
        if form == 'c':
            a = np.array([[p[0], 1., 0, 0], [-1, p[0], 0, 0], [0, 0, -1, 1], [0, 0, 0, -2.]])[-n:, -n:]
        else:
            a = np.array([[.6, .8, 0, 0], [-.8, .6, 0, 0], [0, 0, .5, 1], [0, 0, 0, -.25]])[-n:, -n:]
            a[:max(0, n-2), :max(0, n-2)] *= p[0]
        if n < 3:
            a = a.copy()
            a[0, 0] = p[0]
        y = np.eye(n)
        ee = np.eye(n) + np.diag(np.ones(n-1), 1)/2 if gen else np.eye(n)
        aa = a @ ee
        key = begin(rep, 'lyapunov', e, form, sign, gen, n)
        x = call(lyapunov_eq_solver, aa, y, ee if gen else None, form)
        if isinstance(x, Err):
            rep.violation(key, 'refused', repr(x))
            continue
        res = aa.T @ x @ ee + ee.T @ x @ aa + y if form == 'c' else aa.T @ x @ aa - ee.T @ x @ ee + y
        fail(rep, key, res, 0*y, 1e-5)


def helpers(rep, e):
    for m in ([[1., 0], [0, e]], [[1., 1], [1, 1+e]], [[e]], [[1., 0, 0], [0, 1, e]], [[e, 0, 0], [0, 1, 1], [0, 1, 2]]):
        key = begin(rep, 'kernel', e, m)
        k = np.shape(m)[1]-np.shape(m)[0]
        for side in ('right', 'left'):
            r = call(haroldker, m, side)
            if isinstance(r, Err) or (np.any(r) if side == 'left' or not k else r.shape[1] != k):
                rep.violation(key, 'kernel', repr(r))
        r = call(haroldsvd, m, True)
        if isinstance(r, Err) or r[3] != len(m):
            rep.violation(key, 'rank', repr(r))
        rep.outcome('kernel')
    for a, b in itertools.product(([1., 3, 2], [e, 1, 1], [1., e, 0], [1., 0, e]), ([e, 1.], [1., e], [1., 1])):
        key = begin(rep, 'quotient', e, a, b)
        r = call(haroldpolydiv, a, b)
        if isinstance(r, Err):
            rep.violation(key, 'refused', repr(r))
            continue
        q, m = (np.atleast_1d(x) for x in r)
        fail(rep, key, np.polyadd(np.polymul(q, b), m)[-3:], a, 1e-12/e**2)
    for a, b in itertools.product(([1., 1], [1., 2]), repeat=2):
        for op, f in (('+', lambda x, y: x+y), ('*', lambda x, y: x*y), ('-', lambda x, y: x-y)):
            g, h = Transfer(1., a), Transfer(1., [b[0], b[1]+e])
            key = begin(rep, 'sum', e, a, b, op)
            r = call(f, g, h)
            if isinstance(r, Err) or np.size(r.den) != 3:
                rep.violation(key, 'order', repr(r))
                continue
            u, v = 1/a[1], 1/(b[1]+e)
            fail(rep, key, r.num[0, -1]/r.den[0, -1]-f(u, v), 0., 1e-9)


def split(rep, e):
    for n, cut in ((2, 0), (3, 0), (3, 1)):
        for place in 'co':
            a = np.diag(np.ones(n-1), -1)
            a[0, -1] = 1.
            a[cut+1, cut] = e
            b = np.eye(n)[:, [0]]
            c = np.eye(n)[[-1]]
            g = State(a, b, c) if place == 'c' else State(a.T, c.T, b.T)
            key = begin(rep, 'split', e, n, cut, place)
            r = call(kalman_decomposition, g)
            if isinstance(r, Err):
                rep.violation(key, 'refused', repr(r))
                continue
            fail(rep, key, obj_values(r)/obj_values(g), np.ones_like(obj_values(g)), 1e-5)
            with env.scripted(rand=draws):
                r = call(minimal_realization, g, 1e-10)
            if isinstance(r, Err) or r.NumberOfStates != n:
                rep.violation(key, 'order', repr(r))


SMALL = {'loop': loop, 'gain': gain, 'rank': rankd, 'place': place, 'times': times, 'coeff': coeff,
         'weak': weak, 'common': common, 'undo': bilinear, 'flags': flags, 'damp': damp,
         'zeros': zeros, 'lyap': lyap, 'helpers': helpers, 'split': split}


def run(case, rep):
    kind, i = case[:2]
    if kind == 'small':
        SMALL[i](rep, DELTAS[case[2]])
    elif kind == 'norm':
        norm(rep, i)
    else:
        globals()[kind](rep, TOLS[i])
