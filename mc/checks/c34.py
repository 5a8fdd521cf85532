"""Large models made of independent parts behave as the parts do."""
import numpy as np

from harold import (State, Transfer, transfer_to_state, state_to_transfer, feedback, discretize,
                    undiscretize, frequency_response, simulate_linear_system,
                    simulate_step_response, simulate_impulse_response, minimal_realization,
                    system_norm, lyapunov_eq_solver, lqr, staircase, hessenberg_realization,
                    haroldlcm, haroldgcd, haroldpolymul, haroldpolyadd, haroldpoly, haroldcompanion)
from ..core import call, Err
from ..ref import PTS, obj_values

CONT = [([1.], [1., 1]), ([2., 1], [1., 3]), ([1.], [1., .8, 2]), ([1., 2.5], [1., 6, 8]), ([3.], [1.]),
        ([1., -1], [1., 2, 5]), ([1., 0, 1], [1., 4.5, 2.5]), ([-2.], [2., 9])]
DISC = [([1.], [1., -.5]), ([2., 1], [1., .3]), ([1.], [1., -.4, .5]), ([1., 2.5], [1., -.3, .02]), ([3.], [1.]),
        ([1., -1], [1., .2, .26]), ([1., 0, 1], [1., -.1, -.56]), ([-2.], [2., 1.2])]
SIZES = {'quick': (2, 4, 5, 7), 'thorough': (2, 3, 4, 5, 6, 7, 8)}
BOUNDS = {t: 'models of %s independent channels cut from a ring of 8 parts of degree 0 to 2 at every position, as '
          'transfers (up to 5 channels) and as states (coupled by a change of coordinates), channels in order and '
          'reversed, continuous and discrete; every operation of the list; responses over 300 samples' % (
              ', '.join(map(str, SIZES[t]))) for t in SIZES}
ASSUMPTIONS = ['the reference for discretizations, responses and norms is the same operation of the library '
               'on the single parts, which is the matter of other checks']
CHUNK = 1
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Refused(Exception):
    pass


def ok(f, *a, **k):
    r = call(f, *a, **k)
    if isinstance(r, Err):
        raise Refused(repr(r))
    return r


def companion(num, den):
    n = len(den)-1
    d = num[0]/den[0] if len(num) == n+1 else 0.
    c = np.zeros(n+1)
    c[n+1-len(num):] = num
    c = (c - d*np.array(den))[1:]/den[0]
    a = np.zeros((n, n))
    b = np.zeros((n, 1))
    if n:
        a[0] = -np.array(den[1:])/den[0]
        a[range(1, n), range(n-1)] = 1.
        b[0, 0] = 1.
    return a, b, c.reshape(1, n), np.array([[d]])


class Big:
    """Parts e, part i from input i to output perm[i]."""
    def __init__(self, kind, dt, k, start, turned):
        ring = CONT if dt is None else DISC
        self.parts = [ring[(start+i) % len(ring)] for i in range(k)]
        self.out = list(range(k))[::-1] if turned else list(range(k))
        self.kind, self.dt, self.k = kind, dt, k
        self.args = (kind, dt, k, start, turned)

    def next(self):
        kind, dt, k, start, turned = self.args
        return Big(kind, dt, k, start+1, turned)

    def single(self, i):
        n, d = self.parts[i]
        if self.kind == 'T':
            return Transfer(n, d, self.dt)
        return State(*companion(n, d), dt=self.dt) if len(d) > 1 else State(n[0]/d[0], dt=self.dt)

    def spread(self, values):
        """Values of the parts (first axis free) in their places."""
        out = np.zeros(np.shape(values[0]) + (self.k, self.k), complex)
        for i, v in enumerate(values):
            out[..., self.out[i], i] = v
        return out

    def values(self, s=PTS):
        return self.spread([np.polyval(n, s)/np.polyval(d, s) for n, d in self.parts])

    def poly(self, j):
        p = np.ones(1)
        for e in self.parts:
            p = np.convolve(p, e[j]/np.array(e[j][0]))
        return p

    def build(self):
        k = self.k
        if self.kind == 'T':
            num = [[[0.] for _ in range(k)] for _ in range(k)]
            den = [[[1.] for _ in range(k)] for _ in range(k)]
            for i, (n, d) in enumerate(self.parts):
                num[self.out[i]][i], den[self.out[i]][i] = list(n), list(d)
            return Transfer(num, den, self.dt)
        m = [companion(*e) for e in self.parts]
        n = sum(len(x[0]) for x in m)
        a, b, c, d = np.zeros((n, n)), np.zeros((n, k)), np.zeros((k, n)), np.zeros((k, k))
        j = 0
        for i, (pa, pb, pc, pd) in enumerate(m):
            w = len(pa)
            a[j:j+w, j:j+w], b[j:j+w, [i]], c[[self.out[i]], j:j+w] = pa, pb, pc
            d[self.out[i], i] = pd.item()
            j += w
        t = np.eye(n) + np.diag(np.full(n-1, .5), -1)
        return State(t@a@np.linalg.inv(t), t@b, c@np.linalg.inv(t), d, self.dt)

    def degree(self):
        return sum(len(d)-1 for _, d in self.parts)


def val(g):
    return np.asarray(obj_values(g))


def alike(x):
    """Values of single models and of matrices of them in one layout."""
    return np.asarray(x).reshape(len(PTS), -1)


@op
def data(x, g):
    yield 'values', val(g), x.values()
    yield 'shape', np.array(g.shape), np.array([x.k, x.k])


@op
def arithmetic(x, g):
    y = x.next()
    h = y.build()
    r, q = x.values(), y.values()
    yield 'sum', val(ok(lambda: g+h)), r+q
    yield 'difference', val(ok(lambda: g-h)), r-q
    yield 'series', val(ok(lambda: g@h)), r@q
    w = np.arange(x.k*x.k).reshape(x.k, x.k) % 5 - 2.
    yield 'gain first', val(ok(lambda: g@w)), r@w
    yield 'gain last', val(ok(lambda: w@g)), w@r
    yield 'shifted', val(ok(lambda: g+w)), r+w
    yield 'scaled', val(ok(lambda: 2.5*g)), 2.5*r
    yield 'negative', val(ok(lambda: -g)), -r


@op
def loop(x, g):
    w = np.roll(np.eye(x.k), 1, 0)*.1
    r = x.values()
    yield 'loop', val(ok(feedback, g, w, negative=False)), np.linalg.solve(np.eye(x.k) - r@w, r)


@op
def conversion(x, g):
    h = ok(state_to_transfer if x.kind == 'S' else transfer_to_state, g)
    yield 'values', val(h), x.values()
    h = ok(minimal_realization, g)
    yield 'minimal values', val(h), x.values()
    if x.kind == 'S':
        yield 'order', np.array(h.NumberOfStates), np.array(x.degree())
        for f in 'co':
            yield 'hessenberg ' + f, val(ok(hessenberg_realization, g, form=f)), x.values()
            a, b, c, _ = ok(staircase, *g.matrices[:3], form=f)[:4]
            yield 'staircase ' + f, val(State(a, b, c, g.d, g.SamplingPeriod)), x.values()


@op
def roots(x, g):
    yield 'poles', np.atleast_1d(np.poly(np.ravel(g.poles))), x.poly(1)
    yield 'zeros', np.atleast_1d(np.poly(np.ravel(g.zeros))), x.poly(0)
    yield 'gain', g.dcgain, x.values(np.array([0. if x.dt is None else 1.]))[0]


@op
def sampling(x, g):
    f = undiscretize if x.dt else discretize
    for m in ('zoh', 'tustin', '>>', '<<', 'foh'):
        if x.dt and m in ('foh', 'zoh') and (x.kind == 'T' or np.any(np.linalg.eigvals(g.a).real < 1e-3)):
            continue
        a = (m,) if x.dt else (.1, m)
        yield m, val(ok(f, g, *a)), x.spread([alike(val(ok(f, x.single(i), *a)))[:, 0] for i in range(x.k)])


@op
def responses(x, g):
    w = np.array([.05, .3, 1., 2.5])
    fr = np.asarray(ok(frequency_response, g, w=w, w_unit='rad/s')[0]).reshape(x.k, x.k, len(w))
    yield 'frequency', np.moveaxis(fr, 2, 0), x.values(1j*w if x.dt is None else np.exp(1j*w*x.dt))
    t = np.arange(300)*(x.dt or .05)
    for n, f in (('step', simulate_step_response), ('impulse', simulate_impulse_response)):
        yield n, np.asarray(ok(f, g, t)[0]), x.spread([np.ravel(ok(f, x.single(i), t)[0]) for i in range(x.k)])
    u = np.array([[((3*i+1)*j) % 7 - 3. for i in range(x.k)] for j in range(300)])
    y = [np.ravel(ok(simulate_linear_system, x.single(i), u[:, i], t)[0]) for i in range(x.k)]
    yield 'simulation', np.asarray(ok(simulate_linear_system, g, u, t)[0]), x.spread(y).sum(2)
    yield 'channels', np.asarray(ok(simulate_linear_system, g, u, t, per_channel=True)[0]), x.spread(y)


@op
def norms(x, g):
    for p in (2, np.inf):
        n = np.array([ok(system_norm, x.single(i), p) for i in range(x.k)])
        yield 'norm %s' % p, np.array(ok(system_norm, g, p)), np.array(np.max(n) if p > 2 else np.sqrt(np.sum(n**2)))


@op
def selection(x, g):
    r, k = x.values(), x.k
    yield 'row', val(ok(lambda: g[k-1, :])), r[:, [k-1], :]
    yield 'column', val(ok(lambda: g[:, k-1])), r[:, :, [k-1]]
    yield 'rows', val(ok(lambda: g[[k-1, 0], :])), r[:, [k-1, 0], :]
    yield 'reversed', val(ok(lambda: g[:, ::-1])), r[:, :, ::-1]
    yield 'corner', alike(val(ok(lambda: g[k-1, 0]))), r[:, [k-1], 0]
    yield 'part', val(ok(lambda: g[1:, :k-1])), r[:, 1:, :k-1]


@op
def matrices(x, g):
    if x.kind == 'T':
        return
    a, b, q = g.a, g.b, np.eye(len(g.a)) + 1.
    e = np.eye(len(a)) + np.diag(np.full(len(a)-1, .3), 1)
    if x.dt is None:
        s = ok(lyapunov_eq_solver, a, q)
        yield 'lyapunov', a.T@s + s@a, -q
        s = ok(lyapunov_eq_solver, a@e, q, e)
        yield 'general', e.T@s@a@e + (a@e).T@s@e, -q
        k, s, _ = ok(lqr, g, q)
        yield 'riccati', a.T@s + s@a - s@b@b.T@s, -q
        yield 'regulator', k, b.T@s
    else:
        s = ok(lyapunov_eq_solver, a, q, form='d')
        yield 'stein', a.T@s@a - s, -q
        s = ok(lyapunov_eq_solver, a@e, q, e, form='d')
        yield 'general', (a@e).T@s@a@e - e.T@s@e, -q
        k, s, _ = ok(lqr, g, q)
        m = np.linalg.solve(np.eye(x.k) + b.T@s@b, b.T@s@a)
        yield 'riccati', a.T@s@a - s - a.T@s@b@m, -q
        yield 'regulator', k, m


@op
def polynomials(x, g):
    dens = [np.array(d) for _, d in x.parts]
    l, m = ok(haroldlcm, *dens)
    yield 'multiple', np.asarray(l)/l[0], x.poly(1)
    for i, d in enumerate(dens):
        p = np.convolve(d, np.ravel(m[i]))
        yield 'cofactor', p/p[0], x.poly(1)
    if all(len(d) > 1 for d in dens):
        f = ok(haroldgcd, *[np.convolve(d, [1., .7]) for d in dens])
        yield 'divisor', f, np.array([1., .7])
    p = np.ones(1)
    for d in dens:
        p = np.convolve(p, d)
    yield 'product', ok(haroldpolymul, *dens), p
    yield 'sum', ok(haroldpolyadd, *dens), sum(np.pad(d, (3-len(d), 0)) for d in dens)[-max(map(len, dens)):]
    z = np.roots(x.poly(1))
    yield 'from roots', ok(haroldpoly, z), x.poly(1)
    yield 'companion', np.poly(ok(haroldcompanion, x.poly(1))), x.poly(1)


def cases(tier):
    return [[kind, dt, k, start, turned, name] for k in SIZES[tier] for kind in 'ST' if kind == 'S' or k < 6
            for dt in (None, .5) for start in range(8) for turned in (0, 1) for name in OPS]


def run(case, rep):
    kind, dt, k, start, turned, name = case
    x = Big(kind, dt, k, start, turned)
    key = '%s dt=%s %d from %d %s' % (kind, dt, k, start, 'turned ' if turned else '')
    rep.trace()
    try:
        g = ok(x.build)
        for what, got, ref in OPS[name](x, g):
            rep.state(key + name + what)
            rep.step()
            got, ref = np.asarray(got), np.asarray(ref)
            if got.shape != ref.shape:
                rep.violation('%s%s %s' % (key, name, what), 'shape', '%s instead of %s' % (got.shape, ref.shape))
            elif not np.array_equal(np.isfinite(got), np.isfinite(ref)):
                rep.violation('%s%s %s' % (key, name, what), 'finite', '%s instead of %s' % (got, ref))
            elif np.all(np.isfinite(ref)) and not rep.close(name, got, ref, 1e-5, 1+np.max(np.abs(ref))):
                rep.violation('%s%s %s' % (key, name, what), 'parts', 'off by %g' % np.max(np.abs(got-ref)))
            rep.outcome(name + ' ' + what)
    except Refused as e:
        rep.violation('%s%s' % (key, name), 'refused', str(e))
