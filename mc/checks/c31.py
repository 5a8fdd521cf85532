"""Changing the units of inputs, outputs, states and time only rescales the results."""
import numpy as np

from harold import (State, Transfer, transfer_to_state, state_to_transfer,
                    feedback, discretize, undiscretize, frequency_response,
                    simulate_linear_system, simulate_step_response, simulate_impulse_response,
                    lyapunov_eq_solver, lqr, ackermann, staircase, hessenberg_realization,
                    minimal_realization, system_norm, controllability_indices,
                    controllability_matrix, observability_matrix, is_kalman_controllable,
                    is_kalman_observable, kalman_decomposition, haroldsvd, haroldker,
                    haroldlcm, haroldgcd, haroldpolydiv, pair_complex_numbers)
from ..core import call, Err
from ..ref import Ss, Tf, obj_values
from .. import alpha

BOUNDS = {'quick': 'every model of the alphabet (and every state model also with a quarter of its state matrix) '
          'in continuous time and with sampling period 0.5, and ten families of polynomials; every operation of '
          'the list; one unit at a time (inputs, outputs, states or common factor, time) changed by each of '
          '2^-30, 2^-20, 2^-10, 2^10, 2^20, 2^30, up to the largest factor stated for the operation, and the first input, output or state '
          'alone by 2^-10 and 2^10',
          'thorough': 'as quick, with every power of two from 2^-30 to 2^30 (2^-10 to 2^10 for one signal alone)'}
ASSUMPTIONS = ['the unscaled results themselves are judged by the other properties',
               'rank decisions, zeros, pairs of numbers, regulators and placements are asked for factors '
               'up to 2^20 only, minimal realizations up to 2^10']
CHUNK = 4
PTS = np.array([0.3+0.7j, -0.45+1.3j, 2.1j, 1.7+0.2j])
W = np.array([0.05, 0.3, 1., 2.5])
# all inputs, outputs, states (or the common factor of a fraction), time, and the first input,
# output, state alone
UNITS = 'uyqtvzr'


class Raised(Exception):
    pass


def ok(f, *a, **k):
    r = call(f, *a, **k)
    if isinstance(r, Err):
        raise Raised(r.name)
    return r


def units(m, x):
    """Factors of the inputs (row) and outputs (column)."""
    p, k = m.shape
    return (np.r_[x.get('v', 1.), np.ones(k-1)]*x.get('u', 1.),
            np.r_[x.get('z', 1.), np.ones(p-1)][:, None]*x.get('y', 1.))


def states(m, x):
    return np.r_[x.get('r', 1.), np.ones(max(len(m.a), 1)-1)][:len(m.a)]*x.get('q', 1.)


def gains(m, x):
    u, y = units(m, x)
    return y*u


def scaled(m, dt, x):
    """The model in other units."""
    q, t = (x.get(c, 1.) for c in 'qt')
    u, y = units(m, x)
    if isinstance(m, Ss):
        if m.gain:
            return State(np.array(m.d, float)*u*y, dt=None if dt is None else dt/t)
        q = states(m, x)
        k = t if dt is None else 1.
        return State(np.array(m.a, float)*k*q[:, None]/q, np.array(m.b, float)*k*u*q[:, None],
                     np.array(m.c, float)*y/q, np.array(m.d, float)*u*y,
                     dt=None if dt is None else dt/t)
    k = t if dt is None else 1.
    num, den = [], []
    for i, row in enumerate(m.e):
        num.append([]), den.append([])
        for j, (n, d) in enumerate(row):
            n, d = np.array(n, float), np.array(d, float)
            top = len(d) - 1
            num[-1].append((n*k**(top-np.arange(len(n)-1, -1, -1))*u[j]*y[i, 0]*q).tolist())
            den[-1].append((d*k**(top-np.arange(len(d)-1, -1, -1))*q).tolist())
    if len(num) == len(num[0]) == 1:
        num, den = num[0][0], den[0][0]
    return Transfer(num, den, None if dt is None else dt/t)


# every operation gets the unscaled model description, the sampling period and the factors,
# and returns plain numbers converted back to the original units
OPS = {}


def op(name, limit=30, only=UNITS, kind='ST'):
    def deco(f):
        OPS[name] = (f, limit, only, kind)
        return f
    return deco


def fac(x, *names):
    return np.prod([x.get(c, 1.) for c in names])


def vals(g, dt, x, gain=1.):
    """Behaviour of a model in the original units."""
    return obj_values(g, PTS*(x.get('t', 1.) if dt is None else 1.))/gain


def order(z, k):
    z = np.asarray(z, complex).ravel()/k
    return z[np.lexsort((np.round(z.imag, 4), np.round(z.real, 4)))]


@op('poles')
def _(m, dt, x):
    g = scaled(m, dt, x)
    return order(g.poles, fac(x, 't') if dt is None else 1.)


@op('zeros', 20)
def _(m, dt, x):
    g = scaled(m, dt, x)
    return order(g.zeros, fac(x, 't') if dt is None else 1.)


@op('dcgain')
def _(m, dt, x):
    return ok(scaled(m, dt, x).dcgain)/gains(m, x)


@op('convert')
def _(m, dt, x):
    g = scaled(m, dt, x)
    h = ok(transfer_to_state if isinstance(g, Transfer) else state_to_transfer, g)
    b = ok(state_to_transfer if isinstance(g, Transfer) else transfer_to_state, h)
    return vals(h, dt, x, gains(m, x)), vals(b, dt, x, gains(m, x))


@op('frequency')
def _(m, dt, x):
    g = scaled(m, dt, x)
    w = W*x.get('t', 1.)
    r, w2 = ok(frequency_response, g, w=w, w_unit='rad/s')
    k = gains(m, x)
    return r/(k[..., None] if np.ndim(r) == 3 else k[0, 0]), np.asarray(w2)/x.get('t', 1.)


@op('simulate')
def _(m, dt, x):
    g = scaled(m, dt, x)
    t = np.arange(8)*(0.25 if dt is None else dt)/x.get('t', 1.)
    s = np.cos(np.outer(np.arange(8), 1+np.arange(g.NumberOfInputs)))
    r, t2 = ok(simulate_linear_system, g, s/units(m, x)[0], t)
    return r/units(m, x)[1].T, t2*x.get('t', 1.)


def wide(r, m, x):
    """One input: the responses have no axis for it."""
    return gains(m, x) if r.ndim == 3 else gains(m, x).T


@op('step')
def _(m, dt, x):
    g = scaled(m, dt, x)
    t = np.arange(8)*(0.25 if dt is None else dt)/x.get('t', 1.)
    r, t2 = ok(simulate_step_response, g, t)
    return r/wide(r, m, x), t2*x.get('t', 1.)


@op('impulse')
def _(m, dt, x):
    g = scaled(m, dt, x)
    t = np.arange(8)*(0.25 if dt is None else dt)/x.get('t', 1.)
    r, t2 = ok(simulate_impulse_response, g, t)
    return r/wide(r, m, x)/x.get('t', 1.), t2*x.get('t', 1.)


@op('norm inf', only='uyqtr')
def _(m, dt, x):
    return ok(system_norm, scaled(m, dt, x))/fac(x, 'u', 'y')


@op('norm 2', only='uyqtr')
def _(m, dt, x):
    return ok(system_norm, scaled(m, dt, x), p=2)/fac(x, 'u', 'y')/(
        np.sqrt(fac(x, 't')) if dt is None else 1.)


@op('minimal', 10)
def _(m, dt, x):
    g = ok(minimal_realization, scaled(m, dt, x))
    n = [g.NumberOfStates] if isinstance(g, State) else [
        np.size(d) for d in ([e for r in g.den for e in r] if isinstance(g.den, list)
                             else [g.den])]
    return vals(g, dt, x, gains(m, x)), n


for side, rk, yes in (('controllable', controllability_matrix, is_kalman_controllable),
                      ('observable', observability_matrix, is_kalman_observable)):
    @op(side, 20, kind='S')
    def _(m, dt, x, rk=rk, yes=yes):
        g = scaled(m, dt, x)
        return ok(rk, g)[2], float(ok(yes, g))


@op('indices', 20, kind='S')
def _(m, dt, x):
    g = scaled(m, dt, x)
    return np.sort(ok(controllability_indices, g.a, g.b))


@op('kalman', 20, kind='S')
def _(m, dt, x):
    return vals(ok(kalman_decomposition, scaled(m, dt, x)), dt, x, gains(m, x))


for form in 'co':
    @op('staircase %s' % form, 30, kind='S')
    def _(m, dt, x, form=form):
        g = scaled(m, dt, x)
        if m.gain:
            raise Raised('no')
        a, b, c, _ = ok(staircase, g.a, g.b, g.c, form=form)
        return vals(State(a, b, c, g.d, g.SamplingPeriod), dt, x, gains(m, x))

    @op('hessenberg %s' % form, 30, kind='S')
    def _(m, dt, x, form=form):
        g = ok(hessenberg_realization, scaled(m, dt, x), form=form)
        return vals(g, dt, x, gains(m, x))


for meth in ('tustin', 'zoh', 'foh', 'forward euler', 'backward euler'):
    @op('discretize %s' % meth)
    def _(m, dt, x, meth=meth):
        if dt is not None:
            raise Raised('no')
        g = ok(discretize, scaled(m, None, x), 0.5/x.get('t', 1.), method=meth)
        v = vals(g, .1, x, gains(m, x))
        if meth == 'foh' and np.any(np.abs(np.array(m.build().poles)) < 1e-6):
            # logarithms of defective unit eigenvalues are too sensitive
            return v
        return v, vals(ok(undiscretize, g), None, x, gains(m, x))

    @op('undiscretize %s' % meth)
    def _(m, dt, x, meth=meth):
        if dt is None or np.any(np.abs(np.array(m.build(dt).poles) + 1) < 1e-3):
            raise Raised('no')
        return vals(ok(undiscretize, scaled(m, dt, x), method=meth), None, x,
                    gains(m, x))


def partner(m, dt, x, dyn):
    """Something with transposed shape that reacts to the outputs in their units."""
    p, q = m.shape
    k = np.array([[1.+i+2*j for j in range(p)] for i in range(q)])/8
    k = k/gains(m, x).T
    if dyn:
        return scaled(Ss(-np.eye(q)*.7, np.eye(q), np.eye(q)/2, np.zeros((q, q))), dt,
                      dict(t=x.get('t', 1.), q=x.get('q', 1.))) @ k
    return k


for sign in (True, False):
    for dyn in (True, False):
        @op('feedback %s %s' % (sign, dyn))
        def _(m, dt, x, sign=sign, dyn=dyn):
            g = scaled(m, dt, x)
            h = partner(m, dt, x, dyn)
            return vals(ok(feedback, g, h, negative=sign), dt, x, gains(m, x))


@op('sum')
def _(m, dt, x):
    g = scaled(m, dt, x)
    h = ok(lambda: (g + g) - 3*g + (-g)*0.5)
    return vals(h, dt, x, gains(m, x))


@op('product')
def _(m, dt, x):
    g = scaled(m, dt, x)
    h = partner(m, dt, x, False)
    u, y = units(m, x)
    return (vals(ok(lambda: g @ h), dt, x, y/y.T), vals(ok(lambda: h @ g), dt, x, u/u[:, None]),
            vals(ok(lambda: (g @ h) @ g), dt, x, gains(m, x)))


@op('inverse')
def _(m, dt, x):
    g = scaled(m, dt, x)
    return vals(ok(lambda: 1/g), dt, x, 1/gains(m, x).T)


@op('select')
def _(m, dt, x):
    g = scaled(m, dt, x)
    return vals(ok(lambda: g[-1, :]), dt, x, gains(m, x)[-1:])


@op('regulator', 20, kind='S', only='uqtvr')
def _(m, dt, x):
    g = scaled(m, dt, x)
    q, u, t = states(m, x), units(m, x)[0], x.get('t', 1.)
    f, c, e = ok(lqr, g, np.diag(q**-2), np.diag(u**2))
    return (f*q*u[:, None], c*q*q[:, None]*(t if dt is None else 1),
            order(e, t if dt is None else 1.))


@op('placement', 20, kind='S', only='uqtvr')
def _(m, dt, x):
    g = scaled(m, dt, x)
    t = x.get('t', 1.) if dt is None else 1.
    loc = np.array([-4., -5., -6., -7.])[:g.NumberOfStates]/(1. if dt is None else 10.)
    return ok(ackermann, (g.a, g.b), loc*t)*states(m, x)*units(m, x)[0][:, None]


@op('lyapunov', kind='S', only='uyt')
def _(m, dt, x):
    """Equations with the state matrix, 'u' and 'y' are the units of the right hand side."""
    k, n = x.get('t', 1.) if dt is None else 1., len(m.a)
    if not n:
        raise Raised('no')
    a, w = np.array(m.a, float)*k, fac(x, 'u', 'y')
    p = np.eye(n)[::-1]
    y = np.eye(n) + p
    form = 'c' if dt is None else 'd'
    with_e = ok(lyapunov_eq_solver, a, y*w, np.eye(n) + np.diag(np.ones(n-1), 1)/4, form=form)
    return ok(lyapunov_eq_solver, a, y*w, form=form)*k/w, with_e*k/w


@op('kernel', kind='S', only='uy')
def _(m, dt, x):
    """'u' and 'y' are the units of the matrix."""
    out = []
    for a in (np.array(m.a, float), np.c_[m.b, m.a], np.r_[m.c, m.c]):
        if not a.size:
            raise Raised('no')
        a = a*fac(x, 'u', 'y')
        u, s, v, r = ok(haroldsvd, a, also_rank=True)
        out += [s/fac(x, 'u', 'y'), float(r)]
        for side in 'RL':
            n = ok(haroldker, a, side=side)
            out += [n @ n.conj().T if side == 'R' else n.conj().T @ n]
    return tuple(out)


def roots_poly(z, k):
    return np.atleast_1d(np.poly(np.array(z)*k).real)


POLYS = {'a': [[-1.], [-2., -1.]], 'b': [[-1., -2.], [-2., -3.]], 'c': [[1j, -1j, -1.], [-1.]],
         'd': [[0.], [0., -1.]], 'e': [[-1.], [-3., -4.]], 'f': [[-2., -2.], [-2.]],
         'g': [[-1., -2.], [-2., -3.], [-3., -1.]], 'h': [[-.5+2j, -.5-2j], [-.5+2j, -.5-2j, -1.]],
         'i': [[-1., -1.25], [-1.25, -1.5]], 'j': [[0., 0., -1.], [0., -2.]]}


@op('polynomials', kind='P', only='yt')
def _(m, dt, x):
    """'t' is the unit of the variable, 'y' a common factor of all polynomials."""
    k, w = x.get('t', 1.), x.get('y', 1.)
    p = [roots_poly(z, k)*w for z in m]

    def back(c, w=1.):
        c = np.atleast_1d(c)
        return c*k**-np.arange(float(c.size))/w
    g = ok(haroldgcd, *p)
    c, mult = ok(haroldlcm, *p)
    q, r = ok(haroldpolydiv, p[-1], roots_poly(m[0][:1], k))
    return (back(g/g[0]), back(c/c[0]), *[back(i/i[0]) for i in mult], back(q, w),
            r*k**(np.arange(r.size)[::-1] - float(p[-1].size - 1))/w)


@op('pairs', kind='P', only='t', limit=20)
def _(m, dt, x):
    z = np.r_[tuple(np.array(i, complex)*x.get('t', 1.) for i in m)]
    return order(ok(pair_complex_numbers, z), x.get('t', 1.))


MODELS = {k: v for k, v in alpha.ALL.items() if isinstance(v, (Ss, Tf))}
for _k in [k for k, v in MODELS.items() if isinstance(v, Ss) and not v.gain]:
    _m = MODELS[_k]
    MODELS[_k+'/4'] = Ss(_m.a/4, _m.b, _m.c, _m.d)
MODELS.update(('polys '+k, v) for k, v in POLYS.items())


def factors(tier):
    e = [-30, -20, -10, 10, 20, 30] if tier == 'quick' else \
        [s*k for k in range(1, 31) for s in (-1, 1)]
    return [{c: k} for c in UNITS for k in e if c in 'uyqt' or abs(k) <= 10]


def kind(m):
    return 'S' if isinstance(m, Ss) else 'T' if isinstance(m, Tf) else 'P'


def cases(tier):
    return [[m, dt, n, tier] for m in MODELS for dt in (None, 0.5) for n in OPS
            if kind(MODELS[m]) in OPS[n][3] and not (kind(MODELS[m]) == 'P' and dt)]


def same(rep, what, got, ref, tol):
    if isinstance(ref, tuple):
        return len(got) == len(ref) and all(same(rep, what, g, r, tol)
                                            for g, r in zip(got, ref))
    got, ref = np.asarray(got), np.asarray(ref)
    if got.shape != ref.shape:
        return False
    fin = np.isfinite(ref)
    if np.any(np.isfinite(got) != fin):
        return False
    if not fin.any():
        return True
    return rep.close(what, got[fin], ref[fin], tol, scale=np.max(np.abs(ref[fin])) or 1.)


def run(case, rep):
    name, dt, n, tier = case
    m = MODELS[name]
    f, limit, only, _ = OPS[n]
    with np.errstate(all='ignore'):
        try:
            base = f(m, dt, {})
        except Raised as e:
            base = e
        for x in factors(tier):
            (c, k), = x.items()
            if c not in only or abs(k) > limit or c == 'r' and kind(m) != 'S':
                continue
            key = '%s dt=%s %s %s=2^%d' % (name, dt, n, c, k)
            rep.state(key)
            rep.step(2)
            rep.trace()
            try:
                got = f(m, dt, {c: 2.**k})
            except Raised as e:
                got = e
            if isinstance(base, Raised) or isinstance(got, Raised):
                if not (isinstance(base, Raised) and isinstance(got, Raised)):
                    rep.violation(key, 'refusal', '%s instead of %s' % (
                        ('refused with %s' % got) if isinstance(got, Raised) else 'answered',
                        'an answer' if isinstance(got, Raised) else 'refusal with %s' % base))
                rep.outcome('refused %s' % n)
                continue
            if not same(rep, n, got, base, 1e-4 if n in ('poles', 'zeros', 'pairs') else 1e-6):
                rep.violation(key, 'units', '%s instead of %s' % (
                    repr(got).replace('\n', '')[:120], repr(base).replace('\n', '')[:120]))
            rep.outcome('answered %s' % n)
