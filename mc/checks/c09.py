"""Arguments stay as they are, and models do not hold on to the caller's data."""
import itertools

import matplotlib.pyplot as plt
import numpy as np

import harold
from harold import State, Transfer
from ..core import call, Err
from .. import alpha
from ..ref import obj_values

PTS = np.array([0.3+0.7j, -0.45+1.3j, 2.1j, 1.7+0.2j])
BOUNDS = {t: 'every public function, constructor, assignment and operator with representative option '
          'combinations (accepted and refused calls) x %s layouts (contiguous, Fortran, strided, '
          'reversed, read-only, integer, nested lists, one array passed twice) of all array '
          'arguments together and of each alone' % ('9' if t == 'quick' else '9') for t in
          ('quick', 'thorough')}
ASSUMPTIONS = ['results are compared between layouts only where they are unique',
               'returned arrays may share memory with array arguments, not with models']
CHUNK = 4


class Ar:
    """An array argument."""
    def __init__(self, x):
        self.x = np.array(x)


def A(x):
    return Ar(np.array(x, float))


class Mo:
    """A model argument."""
    def __init__(self, k, dt=None):
        self.k, self.dt = k, dt

    def build(self):
        return alpha.ALL[self.k].with_dt(self.dt).build()


I2, Z2 = np.eye(2), np.zeros((2, 2))
a2 = [[0, 1], [-2, -3]]
a3 = [[-1, 1, 0], [0, -2, 1], [0, 0, -3]]
s2 = [[2, 1], [1, 3]]
ad = [[.5, .25], [0, -.5]]
h = harold


def assign(g, attr, val):
    setattr(g, attr, val)
    return g


def recipes():
    """name -> (function, arguments, keyword arguments, unique result)."""
    R = {}

    def add(name, f, *args, unique=True, **kw):
        assert name not in R, name
        R[name] = (f, list(args), kw, unique)
    # constructors
    add('State abcd', State, A(a2), A([[1], [2]]), A([[1, 0]]), A([[3]]))
    add('State abc', State, A(a2), A([[1, 0], [2, 1]]), A([[1, 0]]))
    add('State ab', State, A(a2), A([[1, 0], [2, 1]]), dt=.1)
    add('State d', State, A([[1, 2], [3, 4]]))
    add('State row', State, A([[1, 2]]), dt=.5)
    add('State 1', State, A([[-1]]), A([[2]]), A([[3]]), A([[4]]))
    add('State vec', State, A(a2), A([1, 2]), A([1, 0]), A([0]))
    add('State same', State, A(s2), A(s2), A(s2), A(s2))
    add('State bad', State, A(a2), A([[1, 2]]), A([[1, 0, 0]]), A([[3]]))
    add('State nan', State, A([[np.nan, 1], [1, 1]]), A([[1], [2]]), A([[1, 0]]))
    add('Transfer', Transfer, A([1, 2]), A([2, 3, 4]))
    add('Transfer lead', Transfer, A([0, 0, 1, 2]), A([0, 2, 3, 4]))
    add('Transfer nonmonic', Transfer, A([2]), A([4, 8]), dt=.2)
    add('Transfer gain', Transfer, A([[1, 2], [3, 4]]))
    add('Transfer gain row', Transfer, A([[1, 2]]), dt=.2)
    add('Transfer gain1', Transfer, A([3]), A([2]))
    add('Transfer zero', Transfer, A([0, 0]), A([0, 1, 2]))
    add('Transfer rank', Transfer, [[A([1]), A([0, 1, 2])], [A([3, 1]), A([0])]], A([0, 2, 3, 4]))
    add('Transfer full', Transfer, [[A([1]), A([0, 1, 2])]], [[A([1, 2]), A([0, 3, 1, 1])]])
    add('Transfer num', Transfer, A([[1, 2], [3, 4]]), [[A([1, 2]), A([1])], [A([2]), A([1, 1])]])
    add('Transfer matrices', Transfer, A([[1, 2], [3, 4]]), A([[1, 2], [2, 4]]))
    add('Transfer bad', Transfer, A([1, 2, 3]), A([0, 0, 1, 2]))
    add('Transfer zero den', Transfer, A([1]), A([0, 0]))
    add('Transfer validate', Transfer.validate_arguments, A([0, 0, 1]), A([0, 2, 3]), unique=False)
    add('State validate', State.validate_arguments, A(a2), A([[1], [2]]), A([[1, 0]]), A([[3]]),
        unique=False)
    # assignments
    for k, at, v in (('s22_b', 'a', a3), ('s22_b', 'b', [[1, 0], [0, 1], [2, 2]]),
                     ('s22_b', 'c', [[1, 0, 0], [0, 1, 5]]), ('s22_b', 'd', s2), ('s22_k', 'd', s2),
                     ('s_k3', 'd', [[2]]), ('s_2', 'a', ad), ('s_2', 'b', [[1, 2]]),
                     ('t_p1', 'num', [3]), ('t_bp', 'num', [0, 3, 1]), ('t_bp', 'den', [0, 2, 3]),
                     ('t_bp', 'num', [1, 2, 3, 4]), ('t22_k', 'num', [[1, 2], [3, 5]])):
        n = 'set %s.%s %s' % (k, at, np.shape(v))
        add(n, lambda v, k=k, at=at: assign(Mo(k).build(), at, v), A(v))
    add('set t22.num', lambda v: assign(Mo('t22_d').build(), 'num', v),
        [[A([1]), A([0, 2])], [A([2]), A([3])]])
    add('set t22.den', lambda v: assign(Mo('t22_b').build(), 'den', v),
        [[A([0, 1, 3]), A([2])], [A([1]), A([2, 3])]])
    # operators
    ops = {'+': lambda x, y: x+y, '-': lambda x, y: x-y, '*': lambda x, y: x*y,
           '@': lambda x, y: x@y, '/': lambda x, y: x/y}
    ms = ['t_p1', 't_k3', 't22_d', 't22_k', 't12_d', 's_2', 's_k3', 's22_b', 's22_k', 's12_d']
    arr = {'22': s2, '11': [[2]], '12': [[1, 2]], '21': [[1], [2]], 'v2': [1, 2], '22z': Z2}
    for o, f in ops.items():
        for m in ms:
            for an, v in arr.items():
                add('%s %s %s' % (m, o, an), f, Mo(m), A(v))
                add('%s %s %s' % (an, o, m), f, A(v), Mo(m))
            for m2 in ms:
                add('%s %s %s' % (m, o, m2), f, Mo(m), Mo(m2))
    for m in ms + ['t_z1', 's23_d']:
        add('-%s' % m, lambda g: -g, Mo(m))
        add('%s[]' % m, lambda g: g[0, 0], Mo(m))
        add('%s[list]' % m, lambda g, i: g[i, :], Mo(m), Ar([0]))
        add('%s[cols]' % m, lambda g, i: g[:, i], Mo(m), Ar([0, 0]))
        for dt in (None, .1):
            g = Mo(m, dt)
            t = ' dt=%s' % dt
            for n, f in (('to_array', lambda x: x.to_array()), ('dcgain', lambda x: x.dcgain()),
                         ('poles', lambda x: x.pole_properties(output_data=True)),
                         ('s2t', h.state_to_transfer), ('t2s', h.transfer_to_state),
                         ('zeros', h.transmission_zeros), ('minreal', h.minimal_realization),
                         ('ctrb', h.controllability_matrix), ('obsv', h.observability_matrix),
                         ('isctrb', h.is_kalman_controllable), ('isobsv', h.is_kalman_observable),
                         ('kalman', h.kalman_decomposition), ('freq', h.frequency_response),
                         ('step', h.simulate_step_response), ('impulse', h.simulate_impulse_response),
                         ('norm', h.system_norm), ('norm2', lambda x: h.system_norm(x, p=2)),
                         ('concat', h.concatenate_state_matrices),
                         ('hess', lambda x: h.hessenberg_realization(x, compute_T=True)),
                         ('hess o', lambda x: h.hessenberg_realization(x, form='o', invert=True)),
                         ('undisc', h.undiscretize), ('repr', repr), ('str', str),
                         ('cindices', lambda x: h.controllability_indices(x)),
                         ('matrices', lambda x: x.matrices if isinstance(x, State)
                          else x.polynomials)):
                add('%s %s%s' % (n, m, t), f, g, unique=False)
            for meth in ('tustin', 'zoh', 'foh', 'forward euler', 'backward euler'):
                add('disc %s %s%s' % (meth, m, t), h.discretize, g, .1, method=meth)
            for m2 in ms:
                for neg in (True, False):
                    add('feedback %s %s %s%s' % (m, m2, neg, t), h.feedback, g, Mo(m2, dt),
                        negative=neg, unique=False)
        add('lft %s' % m, lambda g, q: h.discretize(g, .1, method='lft', q=q), Mo(m),
            A([[1, .3], [.3, .05]]))
        add('freq w %s' % m, h.frequency_response, Mo(m), A([3, 1, 2]), w_unit='rad/s')
        add('freq hz %s' % m, h.frequency_response, Mo(m), A([1, 2]))
        add('freq disc %s' % m, h.frequency_response, Mo(m, .5), A([.1, .5, 3]))
        add('step t %s' % m, h.simulate_step_response, Mo(m), A([0, 1, 2, 3]))
        add('impulse t %s' % m, h.simulate_impulse_response, Mo(m), A([0, 1, 2, 3]))
        for n, f in (('bode', h.bode_plot), ('nyquist', h.nyquist_plot)):
            if m in ('t_p1', 's22_b', 't_k3'):
                add('%s w %s' % (n, m), f, Mo(m), A([1, 2, 3]), unique=False)
                add('%s list %s' % (n, m), lambda x, y, f=f: f([x, y]), Mo(m), Mo('t22_k'),
                    unique=False)
        for n, f in (('stepplot', h.step_response_plot), ('impplot', h.impulse_response_plot)):
            if m in ('t_p1', 's22_b', 't_k3'):
                add('%s %s' % (n, m), f, Mo(m), A([0, 1, 2]), unique=False)
    for m, nu, nx in (('s_2', 1, 2), ('s22_b', 2, 3), ('t_p1', 1, 1), ('s_k3', 1, 0), ('t22_d', 2, 0),
                      ('s12_d', 2, 2), ('s23_d', 3, 2)):
        u = np.arange(4*nu).reshape(4, nu) % 3
        for dt, t in ((None, [0, 1, 2, 3]), (1., [0, 1, 2, 3]), (1., None)):
            x0 = [[1]*nx, np.ones((nx, 1))] if nx and m[0] == 's' else []
            for xi, x in enumerate([None] + x0):
                for per in (False, True):
                    kw = {} if x is None else {'x0': A(x)}
                    if t is not None:
                        kw['t'] = A(t)
                    add('sim %s dt=%s t=%s x0=%d %s' % (m, dt, t is not None, xi, per),
                        h.simulate_linear_system, Mo(m, dt), A(u), per_channel=per, **kw)
    # matrices
    for form in 'cd':
        A0 = a2 if form == 'c' else ad
        for yn, y in (('sym', s2), ('zero', Z2), ('int', [[1, 0], [0, 0]])):
            add('lyap %s %s' % (form, yn), h.lyapunov_eq_solver, A(A0), A(y), form=form)
            add('glyap %s %s' % (form, yn), h.lyapunov_eq_solver, A(A0), A(y), A([[2, 0], [1, 1]]),
                form=form)
        add('lyap %s 3' % form, h.lyapunov_eq_solver, A(a3 if form == 'c' else np.array(a3)/4.),
            A(np.diag([1, 2, 3])), form=form)
        add('lyap %s big' % form, h.lyapunov_eq_solver,
            A(np.diag(-np.arange(1, 8.))/(1 if form == 'c' else 9) + np.diag(np.full(6, .25), 1)
              + np.diag(np.full(6, -.125), -1)), A(np.eye(7)), form=form)
        add('glyap %s big' % form, h.lyapunov_eq_solver,
            A(np.diag(-np.arange(1, 8.))/(1 if form == 'c' else 9) + np.diag(np.full(6, .25), 1)
              + np.diag(np.full(6, -.125), -1)), A(np.eye(7)),
            A(np.eye(7)+np.diag(np.full(6, .5), 1)), form=form)
        add('lyap %s same' % form, h.lyapunov_eq_solver, A(s2), A(s2), form=form)
        add('glyap %s same' % form, h.lyapunov_eq_solver, A(s2), A(s2), A(s2), form=form)
        add('lyap %s unsym' % form, h.lyapunov_eq_solver, A(A0), A([[1, 2], [0, 1]]), form=form)
        add('lyap %s shapes' % form, h.lyapunov_eq_solver, A(A0), A(np.eye(3)), form=form)
        add('lyap %s 1' % form, h.lyapunov_eq_solver, A([[-.5]]), A([[1]]), form=form)
        add('glyap %s 1' % form, h.lyapunov_eq_solver, A([[-.5]]), A([[1]]), A([[2]]), form=form)
    for m, nx, nu in (('s_2', 2, 1), ('s22_b', 3, 2)):
        for dt in (None, 1.):
            add('lqr %s %s' % (m, dt), h.lqr, Mo(m, dt), A(np.eye(nx)), A(2*np.eye(nu)))
            add('lqr R %s %s' % (m, dt), h.lqr, Mo(m, dt), A(np.eye(nx)))
            add('lqr S %s %s' % (m, dt), h.lqr, Mo(m, dt), A(4*np.eye(nx)), A(2*np.eye(nu)),
                A(np.ones((nx, nu))/2))
            add('lqr out %s %s' % (m, dt), h.lqr, Mo(m, dt), A(np.eye(nu)), A(2*np.eye(nu)),
                weight_on='output')
            add('lqr bad %s %s' % (m, dt), h.lqr, Mo(m, dt), A(np.eye(nx+1)), A(2*np.eye(nu)))
    add('acker tuple', lambda a, b, l: h.ackermann((a, b), l), A(a2), A([[0], [1]]), A([-1, -2]))
    add('acker State', h.ackermann, Mo('s_2'), A([-1, -5]))
    add('acker complex', lambda a, b, l: h.ackermann((a, b), l), A(a2), A([[0], [1]]),
        Ar([-1+1j, -1-1j]))
    add('acker bad', lambda a, b, l: h.ackermann((a, b), l), A(a2), A([[0], [1]]), A([-1]))
    for n, f in (('ctrb', h.controllability_matrix), ('isctrb', h.is_kalman_controllable)):
        for c in (False, True) if n == 'ctrb' else (None,):
            add('%s pair %s' % (n, c), lambda a, b, f=f, c=c: f((a, b)) if c is None else
                f((a, b), compress=c), A(a3), A([[0], [0], [1]]), unique=False)
    for n, f in (('obsv', h.observability_matrix), ('isobsv', h.is_kalman_observable)):
        for c in (False, True) if n == 'obsv' else (None,):
            add('%s pair %s' % (n, c), lambda a, b, f=f, c=c: f((a, b)) if c is None else
                f((a, b), compress=c), A(a3), A([[1, 0, 0]]), unique=False)
    for m, T, o in itertools.product(('s_2', 's_k3', 's22_b', 's22_k', 's12_d'), (False, True),
                                     ('system', 'matrices')):
        for dt in (None, .1):
            add('kalman %s %s %s dt=%s' % (m, T, o, dt), h.kalman_decomposition, Mo(m, dt),
                compute_T=T, output=o, unique=False)
    add('kalman tuple', lambda a, b, c: h.kalman_decomposition((a, b, c)), A(np.diag([-1, -2, -3])),
        A([[1], [0], [1]]), A([[1, 1, 0]]), unique=False)
    for T, form, inv, blk in itertools.product((False, True), 'co', (False, True), (False, True)):
        add('stair %s %s %s %s' % (T, form, inv, blk), h.staircase, A(a3), A([[0], [0], [1]]),
            A([[1, 0, 0]]), compute_T=T, form=form, invert=inv, block_indices=blk, unique=False)
        add('stair2 %s %s %s %s' % (T, form, inv, blk), h.staircase, A(np.diag([-1, -2, -3])),
            A([[0, 1], [0, 0], [1, 1]]), A([[1, 0, 0], [1, 1, 1]]), compute_T=T, form=form,
            invert=inv, block_indices=blk, unique=False)
        if not blk:
            add('hess mats %s %s %s' % (T, form, inv), lambda a, b, c, T=T, form=form, inv=inv:
                h.hessenberg_realization((a, b, c), compute_T=T, form=form, invert=inv,
                                         output='matrices'), A(a3), A([[0], [1], [1]]),
                A([[1, 0, 1]]), unique=False)
    add('stair same', h.staircase, A(s2), A(s2), A(s2), unique=False)
    add('minreal tuple', lambda a, b, c: h.minimal_realization((a, b, c)), A(np.diag([-1, -2, -3])),
        A([[1], [0], [1]]), A([[1, 1, 0]]), unique=False)
    add('cancel', h.cancellation_distance, A(a3), A([[0], [0], [1]]), unique=False)
    add('cancel2', h.cancellation_distance, A(a2), A([[1, 0], [0, 1]]), unique=False)
    for n in ((False, None), (True, None), (True, .5)):
        add('svd %s %s' % n, lambda x, n=n: h.haroldsvd(x, also_rank=n[0], rank_tol=n[1]),
            A([[1, 2, 0], [2, 4, 1]]), unique=False)
    for side in ('right', 'left'):
        add('ker ' + side, lambda x, side=side: h.haroldker(x, side=side),
            A([[1, 2, 0], [2, 4, 0]]), unique=False)
    add('pair', h.pair_complex_numbers, Ar([1+1j, 2, 1-1j, -3]))
    add('pair real', h.pair_complex_numbers, A([3, 1, 2]))
    add('pair last', lambda x: h.pair_complex_numbers(x, reals_first=False, positives_first=True),
        Ar([1+1j, 2, 1-1j, -3, 0]))
    add('pair bad', h.pair_complex_numbers, Ar([1+1j, 2]))
    add('e_i', h.e_i, 4, Ar([1, 2]))
    for corner in ('nw', 'ne', 'sw', 'se'):
        add('slice ' + corner, lambda m, corner=corner: h.matrix_slice(m, (1, 2), corner=corner),
            A(a3))
    # polynomials
    for n, f in (('lcm', h.haroldlcm), ('gcd', h.haroldgcd), ('add', h.haroldpolyadd),
                 ('mul', h.haroldpolymul)):
        add('poly %s 2' % n, f, A([1, 3, 2]), A([1, 1]))
        add('poly %s lead' % n, f, A([0, 2, 6, 4]), A([0, 0, 1, 2]))
        add('poly %s 3' % n, f, A([1, 2]), A([1, 3, 2]), A([2]))
        add('poly %s same' % n, f, A([1, 3, 2]), A([1, 3, 2]))
        add('poly %s zero' % n, f, A([1, 3, 2]), A([0, 0]))
    add('poly add trim', h.haroldpolyadd, A([1, 3, 2]), A([-1, 1, 1]), trim_zeros=False)
    add('poly mul trim', h.haroldpolymul, A([0, 3, 2]), A([0, 1, 1]), trim_zeros=False)
    add('poly div', h.haroldpolydiv, A([0, 1, 3, 2]), A([0, 1, 1]))
    add('poly div low', h.haroldpolydiv, A([1, 1]), A([2, 1, 1]))
    add('poly roots', h.haroldpoly, Ar([1, 2, 3]))
    add('companion', h.haroldcompanion, A([2, 4, 6]))
    add('companion lead', h.haroldcompanion, A([0, 2, 4, 6]))
    add('random', h.random_state_model, 3, 2, 2, None, A([.5, .5]), unique=False)
    add('random u', h.random_state_model, 4, prob_dist=A([.25]*4), stable=False, unique=False)
    return R


RECIPES = recipes()
LAYOUTS = ['c', 'f', 'strided', 'reversed', 'frozen', 'frozen f', 'int', 'list', 'same']


def lay(x, how, held):
    """The array in a layout; `held` collects everything that must not change."""
    if how == 'list':
        out = x.astype(int).tolist() if x.dtype.kind == 'f' and np.all(np.isfinite(x)) and \
            np.all(x == np.round(x)) else x.tolist()
        held.append(out)
        return out
    if how == 'int':
        if x.dtype.kind != 'f' or not np.all(np.isfinite(x)) or np.any(x != np.round(x)):
            return None
        out = x.astype(int)
    elif how == 'strided':
        big = np.full(tuple(2*n+1 for n in x.shape), 77, x.dtype)
        held.append(big)
        out = big[tuple(slice(1, None, 2) for _ in x.shape)]
        out[...] = x
    elif how == 'reversed':
        big = x[tuple(slice(None, None, -1) for _ in x.shape)].copy()
        held.append(big)
        out = big[tuple(slice(None, None, -1) for _ in x.shape)]
    elif how in ('f', 'frozen f'):
        out = np.array(x, order='F')
    else:
        out = np.array(x, order='C')
    if how.startswith('frozen'):
        out.flags.writeable = False
    held.append(out)
    return out


def prepare(arg, how, which, held, leaf, memo):
    """Replace the leaves of an argument; `which` selects one leaf, or all for None."""
    if isinstance(arg, Ar):
        i = leaf[0]
        leaf[0] += 1
        if how == 'same':
            k = (arg.x.tobytes(), arg.x.shape, arg.x.dtype.str)
            if k not in memo:
                memo[k] = lay(arg.x, 'c', held)
            return memo[k]
        return lay(arg.x, how if which is None or which == i else 'c', held)
    if isinstance(arg, Mo):
        g = arg.build()
        if how == 'same':
            g = memo.setdefault((arg.k, arg.dt), g)
        held.append(g)
        return g
    if isinstance(arg, list):
        out = [prepare(x, how, which, held, leaf, memo) for x in arg]
        held.append(out)
        return None if any(x is None for x in out) else out
    return arg


def leaves(x):
    if isinstance(x, Ar):
        return 1
    if isinstance(x, (list, tuple)):
        return sum(leaves(y) for y in x)
    if isinstance(x, dict):
        return sum(leaves(y) for y in x.values())
    return 0


def snap(x):
    """Exact content."""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, x.dtype.str, x.strides, x.flags.writeable, x.tobytes())
    if isinstance(x, (State, Transfer)):
        data = x.matrices if isinstance(x, State) else (x.num, x.den)
        return ('m', type(x).__name__, x.shape, repr(x.SamplingPeriod), x.SamplingSet,
                repr(x.DiscretizedWith) if x.SamplingSet == 'Z' else None,
                repr(x.PrewarpFrequency) if x.SamplingSet == 'Z' else None,
                snap(data), snap(x.poles), snap(x.zeros),
                [bool(getattr(x, k, False)) for k in ('_isgain', '_isSISO', '_isstable')])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    return ('v', type(x).__name__, repr(x))


def spoil(x):
    """Change the caller's data in place."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = x + 7
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (list, np.ndarray)):
                spoil(y)
            elif isinstance(y, (int, float)):
                x[i] = y + 7
        x.append(5)


def numbers(r):
    """Result as comparable arrays; models by their values."""
    if isinstance(r, (State, Transfer)):
        with np.errstate(all='ignore'):
            return [('model', type(r).__name__, r.shape, repr(r.SamplingPeriod)),
                    np.array(obj_values(r, PTS))]
    if isinstance(r, np.ndarray):
        return [('array', r.shape), np.array(r)]
    if isinstance(r, (list, tuple)):
        return [('seq', len(r))] + [y for x in r for y in numbers(x)]
    if isinstance(r, (int, float, complex, np.generic)) and not isinstance(r, (bool, np.bool_)):
        return [np.asarray(r)]
    return [repr(r) if isinstance(r, (str, bool, np.bool_, type(None))) else type(r).__name__]


def same(rep, x, y):
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if isinstance(u, np.ndarray) != isinstance(v, np.ndarray):
            return False
        if isinstance(u, np.ndarray):
            if u.shape != v.shape:
                return False
            if u.dtype.kind == 'O' or v.dtype.kind == 'O':
                continue
            if u.size:
                ok = np.isfinite(u)
                if np.any(ok != np.isfinite(v)):
                    return False
                if not rep.close('layout', v[ok], u[ok], 1e-7, scale=1+np.max(np.abs(u[ok]),
                                                                            initial=0)):
                    return False
        elif u != v:
            return False
    return True


def models(r):
    if isinstance(r, (State, Transfer)):
        return [r]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in models(x)]
    return []


def returned(r):
    """The arrays handed out by a call."""
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in returned(x)]
    return []


def cases(tier):
    return sorted(RECIPES)


def run(case, rep):
    f, args, kw, unique = RECIPES[case]
    n = leaves(args) + leaves(kw)
    base = None
    for how in LAYOUTS:
        if n == 0 and how not in ('c', 'same'):
            continue
        for which in [None] + (list(range(n)) if n > 1 and how not in ('c', 'same') else []):
            held, leaf, memo = [], [0], {}
            a = [prepare(x, how, which, held, leaf, memo) for x in args]
            k = {q: prepare(x, how, which, held, leaf, memo) for q, x in kw.items()}
            if any(x is None and y is not None for x, y in zip(a, args)) or \
                    any(k[q] is None and kw[q] is not None for q in k):
                continue
            key = '%s | %s%s' % (case, how, '' if which is None else ' arg %d' % which)
            rep.step()
            rep.state(key)
            rep.trace()
            before = [snap(x) for x in held]
            np.random.seed(1)
            r = call(f, *a, **k)
            plt.close('all')
            for x, s in zip(held, before):
                if snap(x) != s:
                    return rep.violation(key, 'changed', '%s is changed by the call' % (
                        type(x).__name__,))
            res = [('refused', r.name)] if isinstance(r, Err) else numbers(r)
            if base is None:
                base = res
            elif isinstance(r, Err) != (base[0] == ('refused', base[0][1]) if isinstance(
                    base[0], tuple) and base[0][0] == 'refused' else False):
                # one-dimensional data and lists may be read differently; arrays may not
                if how not in ('list', 'int'):
                    return rep.violation(key, 'layout', '%s instead of %s' % (res[0], base[0]))
            elif unique and how not in ('list', 'int') and not same(rep, base, res):
                return rep.violation(key, 'layout', 'the result depends on the memory layout')
            if case.split()[0] in ('sim', 'step', 'impulse') and not isinstance(r, Err) and any(
                    isinstance(x, np.ndarray) and np.shares_memory(x, r[1]) for x in held):
                return rep.violation(key, 'copy', 'the returned time samples are not a copy')
            # later changes of the caller's data
            out = models(r)
            own = [snap(x) for x in out]
            mo = [(x, snap(x)) for x in held if isinstance(x, (State, Transfer))]
            for x in held:
                if not isinstance(x, (State, Transfer)):
                    spoil(x)
            for x, s in list(zip(out, own)) + mo:
                if snap(x) != s:
                    return rep.violation(key, 'held', 'the model changes with the data it was '
                                         'given')
            # later changes of the arrays that were returned; attributes are the model's own
            if not isinstance(r, Err) and case.split()[0] != 'matrices':
                for x in returned(r):
                    if x.dtype.kind in 'fc':
                        spoil(x)
                for x, s in mo:
                    if snap(x) != s:
                        return rep.violation(key, 'handed', 'changing the returned array changes '
                                             'the model')
            rep.outcome('%s %s' % ('refused' if isinstance(r, Err) else 'done', how))
