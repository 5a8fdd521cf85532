"""Calls do not influence each other: results depend on the arguments alone.

The process that runs the cases never calls the library.  Every history is executed in forked
copies of it, so that the state before the first call is that of a fresh interpreter.
"""
import gc
import os
import pickle
import re
import signal
import sys
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

import harold
from harold import State, Transfer
from .. import alpha
from ..core import call, Err

h = harold
MODELS = {'s1': ('s_2', None), 's2': ('s_3', None), 'm1': ('s22_b', None),
          't1': ('t_p1', None), 't2': ('t_bp', None), 'x1': ('t22_b', None), 'k1': ('t22_k', .5),
          'z1': ('s22_b', .5), 'z2': ('t_bp', .5)}
UNARY = {
    'poles': lambda g: g.poles, 'zeros': lambda g: g.zeros, 'dcgain': lambda g: g.dcgain,
    'table': lambda g: g.pole_properties(), 'text': lambda g: (repr(g), str(g)),
    'neg': lambda g: -g, 'pick': lambda g: g[0, 0], 'twice': lambda g: g+g, 'square': lambda g: g*g,
    'inverse': lambda g: 1/(g+3), 'state': h.transfer_to_state, 'transfer': h.state_to_transfer,
    'minreal': h.minimal_realization, 'kalman': h.kalman_decomposition,
    'hessenberg': h.hessenberg_realization, 'controllable': h.is_kalman_controllable,
    'reach': h.controllability_matrix, 'observe': h.observability_matrix,
    'response': h.frequency_response, 'step': h.simulate_step_response,
    'impulse': h.simulate_impulse_response, 'peak': h.system_norm, 'energy': lambda g: h.system_norm(g, 2),
    'zoh': lambda g: h.discretize(g, .1, 'zoh'), 'tustin': lambda g: h.discretize(g, .2),
    'undo': lambda g: h.undiscretize(g, 'tustin'),
    'there and back': lambda g: h.undiscretize(h.discretize(g, .1, 'zoh')),
    'loop': lambda g: h.feedback(g, .25*np.eye(*g.shape[::-1])),
    'given': lambda g: h.frequency_response(g, w=[.1, 1., 3.], w_unit='rad/s'),
    'simulate': lambda g: h.simulate_linear_system(
        g, np.outer(np.arange(6.), np.ones(g.shape[1])), np.arange(6)*.5),
    'distance': lambda g: h.cancellation_distance(g.a, g.b)[:2],
    'regulator': lambda g: h.lqr(g, np.eye(g.NumberOfStates)),
    'array': lambda g: g.to_array(), 'kept': lambda g: (g.matrices if isinstance(g, State) else g.polynomials)}
M1, M2 = np.array([[-1., 2], [0, -3]]), np.array([[-2., 1], [-1, -1]])
PLAIN = {
    'lcm a': lambda: h.haroldlcm([1, 3, 2], [1, 4, 3]), 'lcm b': lambda: h.haroldlcm([1, 5, 6], [1, 1]),
    'gcd a': lambda: h.haroldgcd([1, 3, 2], [1, 4, 3]), 'gcd b': lambda: h.haroldgcd([1, 5, 6], [1, 3, 2]),
    'divide': lambda: h.haroldpolydiv([1, 2, 3], [1, 1]), 'add': lambda: h.haroldpolyadd([1, 2], [3]),
    'multiply': lambda: h.haroldpolymul([1, 2], [3, 1]), 'roots': lambda: h.haroldpoly([1, 2]),
    'companion': lambda: h.haroldcompanion([1, 2, 3]), 'svd': lambda: h.haroldsvd(M1, True),
    'ker a': lambda: h.haroldker([[1, 2]]), 'ker b': lambda: h.haroldker([[1, 2], [2, 4]], 'left'),
    'pairs a': lambda: h.pair_complex_numbers([1j, -1j, 1]),
    'pairs b': lambda: h.pair_complex_numbers([2, 1-1j, 1+1j], positives_first=True),
    'unit': lambda: h.e_i(3, 1), 'slice': lambda: h.matrix_slice(M1, (1, 1)),
    'lyapunov a': lambda: h.lyapunov_eq_solver(M1, np.eye(2)),
    'lyapunov b': lambda: h.lyapunov_eq_solver(M2, np.eye(2)),
    'lyapunov e': lambda: h.lyapunov_eq_solver(M2, np.eye(2), M1),
    'stein': lambda: h.lyapunov_eq_solver(M1/4, np.eye(2), form='d'),
    'stein e': lambda: h.lyapunov_eq_solver(M1/4, np.eye(2), M2, form='d'),
    'ackermann': lambda: h.ackermann((M1, np.ones((2, 1))), [-1, -2]),
    'indices': lambda: h.controllability_indices(M1, np.eye(2)),
    'stairs': lambda: h.staircase(M2, np.ones((2, 1)), np.ones((1, 2))),
    'tzeros': lambda: h.transmission_zeros(M1, np.eye(2), np.eye(2), M2),
    'random a': lambda: h.random_state_model(3, 1, 2),
    'random b': lambda: h.random_state_model(2, 2, 1, .1),
    'build t': lambda: Transfer([1, 2], [1, 3, 5]), 'build z': lambda: Transfer([[1, 2]], [1, 3], .1),
    'build s': lambda: State(M1, M2, M1, M2), 'build k': lambda: State(5, dt=.3),
    'build d': lambda: State(M1), 'build e': lambda: Transfer(None, [1, 2]),
    # refused calls
    'no model': lambda: h.feedback('a', 2), 'no shape': lambda: h.feedback(State(M1), 3),
    'no period': lambda: Transfer(1, [1, 1], -1), 'no cause': lambda: Transfer([1, 2, 3], [1, 2]),
    'no pair': lambda: h.pair_complex_numbers([1j]), 'no time': lambda: h.simulate_step_response(
        State(-1, 1, 1), [0, 1, 3.]), 'no inverse': lambda: 1/Transfer(1, [1, 1]),
    'no fit': lambda: State(M1, np.ones((3, 1)), np.ones((1, 2))), 'no solution': lambda:
        h.lyapunov_eq_solver(np.zeros((2, 2)), np.eye(2)), 'no method': lambda: h.discretize(
        Transfer(1, [1, 1]), .1, 'what'), 'no match': lambda: Transfer(1, [1, 1], .1) + Transfer(1, [1, 1])}
PLOTS = {'bode': h.bode_plot, 'nyquist': h.nyquist_plot, 'step plot': h.step_response_plot,
         'impulse plot': h.impulse_response_plot}
PLOTTED = ('s1', 't2', 'm1', 'z1')


SEED = [5]


OPS = {}
for _m in MODELS:
    for _u in UNARY:
        OPS['%s %s' % (_u, _m)] = (UNARY[_u], _m)
for _p in PLAIN:
    OPS[_p] = (PLAIN[_p], None)
for _p in PLOTS:
    for _m in PLOTTED:
        OPS['%s %s' % (_p, _m)] = (PLOTS[_p], _m)
DRAWN = [k for k in OPS if OPS[k][0] in PLOTS.values()]
QUIET = [k for k in OPS if k not in DRAWN]
NEIGHBOURS = {('s1', 's2'), ('t1', 't2')}
BOUNDS = {'quick': '%d operations: every public function, operator and property on 9 models, two of each kind '
          'with equal shapes, helpers, plots and refused calls; every ordered pair that shares the function or '
          'one of five model objects or is made of helpers, every pair of functions on two models of the same shape, '
          'every helper or refused call before and after every function; each from the state of a fresh '
          'interpreter; settings before and after every function on every model of the alphabet' % len(OPS),
          'thorough': 'every ordered pair of operations other than plots, and every third call of the same '
          'function on another model'}
ASSUMPTIONS = ['a fresh interpreter is represented by a forked copy of a process that has imported the '
               'library and not called it',
               'results are compared with a relative tolerance of 1e-6; random functions are called '
               'with a fixed seed']
CHUNK = 1
CASE_LIMIT = 300.


def cases(tier):
    return [[k, tier] for k in OPS] + [['settings ' + u, tier] for u in UNARY]


def plain(r):
    """A result as nested tuples of arrays, strings and numbers."""
    if isinstance(r, Err):
        return ('error', r.name)
    if isinstance(r, State):
        return ('State',) + tuple(np.array(x) for x in r.matrices) + (
            r.SamplingPeriod, r.DiscretizedWith, r.SamplingSet, tuple(r.shape), np.ravel(r.poles))
    if isinstance(r, Transfer):
        return ('Transfer',) + tuple(plain(x) for x in r.polynomials) + (
            r.SamplingPeriod, r.DiscretizedWith, r.SamplingSet, tuple(r.shape), np.ravel(r.poles))
    if isinstance(r, matplotlib.figure.Figure):
        return ('Figure',) + tuple(
            (a.get_xlabel(), a.get_ylabel(), a.get_title(), a.get_xscale(), a.get_yscale()) + tuple(
                (l.get_linestyle(), str(l.get_color()), np.array(l.get_xdata(), float),
                 np.array(l.get_ydata(), float)) for l in a.lines) for a in r.axes)
    if isinstance(r, (tuple, list)):
        return tuple(plain(x) for x in r)
    if isinstance(r, (np.ndarray, np.generic)):
        return plain(r.tolist()) if np.array(r).dtype == object else np.array(r)
    if isinstance(r, (str, int, float, complex, type(None))):
        return r
    return repr(type(r))


NUMBER = re.compile(r'[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?')


def equal(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return type(x) is type(y) and len(x) == len(y) and all(map(equal, x, y))
    if isinstance(x, str) and isinstance(y, str):
        return NUMBER.sub('#', x) == NUMBER.sub('#', y) and equal(
            np.array(NUMBER.findall(x), float), np.array(NUMBER.findall(y), float))
    if isinstance(x, str) or x is None or isinstance(y, str) or y is None:
        return x is y
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and np.allclose(x, y, 1e-6, 1e-6*max(
        [1e-300] + [abs(t) for t in np.ravel(y) if np.isfinite(t)]), equal_nan=True)


def settings():
    filters = [(f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__) for f in warnings.filters]
    return {'floating point errors': np.geterr(), 'printing': repr(np.get_printoptions()),
            'warnings': filters, 'plot defaults': repr(sorted(dict(matplotlib.rcParams).items(), key=str)),
            'interactive plots': plt.isinteractive(), 'directory': os.getcwd(),
            'environment': dict(os.environ), 'recursion': sys.getrecursionlimit(),
            'shown warnings': warnings.showwarning is silent, 'streams': (id(sys.stdout), id(sys.stderr), id(sys.displayhook), id(sys.excepthook))}


def models():
    return {k: alpha.ALL[n].with_dt(dt).build() for k, (n, dt) in MODELS.items()}


def perform(name, ms):
    """The result of an operation, with draws that are always the same unless SEED is empty."""
    for s in SEED:
        np.random.seed(s)
    f, m = OPS[name]
    return call(f, ms[m]) if m else call(f)


def silent(*a, **k):
    pass


def fork(work):
    """The value of work() in a copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            gc.disable()
            np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
            warnings.filters[:] = [('once', None, Warning, None, 0)]
            warnings.showwarning = silent
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            data = pickle.dumps([work()])
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data)[0] if data else Err


def alone(name):
    return fork(lambda: plain(perform(name, models())))


_alone = {}


def follow(names, seconds):
    """What the second operations give after the first ones, and which settings have changed."""
    ms = models()
    before = settings()
    for n in names:
        perform(n, ms)
    after = settings()
    out = {k: fork(lambda: plain(perform(k, ms))) for k in seconds}
    return [k for k in before if before[k] != after[k]], out


def reseeds(name):
    """Whether the draws that follow an operation do not depend on the seed chosen before."""
    del SEED[:]
    after = []
    for s in (1, 2):
        np.random.seed(s)
        perform(name, models())
        after.append(np.random.get_state()[1].tobytes())
    return after[0] == after[1]


def related(x, y, tier):
    (f, m), (g, n) = OPS[x], OPS[y]
    if x in DRAWN or y in DRAWN:
        return x in DRAWN and (y in DRAWN or n in (None, 's1', m)) or y in DRAWN and m in (None, n)
    return tier == 'thorough' or f is g or m == n and m not in ('s2', 't1', 'k1', 'z2') or m is None and n == 't2' or \
        n is None and m == 's2' or (m, n) in NEIGHBOURS


def lasting(u):
    """Settings that a function leaves changed, by model."""
    out = {}
    for name, spec in alpha.ALL.items():
        if hasattr(spec, 'with_dt'):
            for dt in (None, .5):
                g = spec.with_dt(dt).build()
                before = settings()
                for seed in SEED:
                    np.random.seed(seed)
                call(UNARY[u], g)
                after = settings()
                out['%s %s' % (name, dt)] = [k for k in before if before[k] != after[k]]
    return out


def run(case, rep):
    first, tier = case
    if first[:9] == 'settings ':
        out = fork(lambda: lasting(first[9:]))
        if out is Err:
            return rep.violation(first, 'no answer', 'the process died')
        for name, changed in out.items():
            rep.state(first + name)
            rep.step()
            rep.trace()
            for k in changed:
                rep.violation('%s %s: %s' % (first, name, k), 'settings', k)
        return
    seconds = [k for k in OPS if related(first, k, tier)]
    if fork(lambda: reseeds(first)) is not False:
        rep.violation(first + ': draws', 'settings', 'the random numbers that follow do not depend on the seed')
    histories = [([first], seconds)]
    if tier == 'thorough' and OPS[first][1]:
        f, m = OPS[first]
        for k in (k for k in OPS if OPS[k][0] is f and k != first):
            histories.append(([first, k], [q for q in OPS if OPS[q][0] is f]))
    for names, seconds in histories:
        r = fork(lambda: follow(names, seconds))
        if r is Err:
            rep.violation(first, 'no answer', 'the process died')
            continue
        changed, out = r
        for k in changed:
            rep.violation('%s: %s' % (' / '.join(names), k), 'settings', k)
        for k in seconds:
            key = ' / '.join(names + [k])
            rep.state(key)
            rep.step()
            rep.trace()
            if k not in _alone:
                _alone[k] = alone(k)
            if _alone[k] is Err or out[k] is Err:
                rep.violation(key, 'no answer', 'the process died')
            elif not equal(out[k], _alone[k]):
                rep.violation(key, 'influence', '%s instead of %s' % (out[k], _alone[k]))
            rep.outcome(str(_alone[k])[:12])
