"""Calls outside a function's domain are refused, whichever arguments are at fault."""
import itertools

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from ..core import call, Err
from harold import (State, Transfer, transfer_to_state, state_to_transfer, transmission_zeros,
                    feedback, discretize, undiscretize, frequency_response, bode_plot,
                    nyquist_plot, step_response_plot, impulse_response_plot,
                    simulate_linear_system, simulate_step_response, simulate_impulse_response,
                    haroldsvd, haroldker, pair_complex_numbers, matrix_slice,
                    lyapunov_eq_solver, lqr, ackermann, staircase, hessenberg_realization,
                    cancellation_distance, minimal_realization, system_norm,
                    controllability_indices, controllability_matrix, observability_matrix,
                    is_kalman_controllable, is_kalman_observable, kalman_decomposition,
                    haroldlcm, haroldgcd, haroldcompanion, haroldpoly, haroldpolydiv, e_i, random_state_model,
                    concatenate_state_matrices)

A2 = np.array([[0., 1.], [-2., -3.]])
S1 = State(-1., 1., 1., 0.)
S2 = State(A2, np.eye(2), np.eye(2), np.zeros((2, 2)))
S12 = State(A2, [[0.], [1.]], [[1., 0.]], 0.)
S3 = State(np.diag([-1., -2., -3.]), np.ones((3, 3)), np.ones((3, 3)), np.eye(3))
T1 = Transfer(1, [1, 1])
T2 = Transfer([[1, 2], [3, 4]], [1, 3, 2])
D1 = State(0.5, 1., 1., 0., 0.1)
D2 = State([[0.5, 1.], [0., 0.25]], np.eye(2), np.eye(2), np.zeros((2, 2)), 0.1)
DT = Transfer(1, [1, -0.5], 0.1)
GS, GT, GD = State(2.), Transfer(2.), State(2., dt=0.1)
NOT = [3, 2.5, 'text', None, [1, 2], np.eye(2), {}]
I2, I3 = np.eye(2), np.eye(3)
N23, N32 = np.ones((2, 3)), np.ones((3, 2))
NAN = np.array([[np.nan, 0.], [0., 1.]])
INF = np.array([[np.inf, 0.], [0., 1.]])
CUBE = np.ones((2, 2, 2))
B1 = np.array([[0.], [1.]])
C1 = np.array([[1., 0.]])
T5 = np.arange(5)*0.1
BADT = [np.array([0., .1, .3, .4, .5]), T5[::-1], np.zeros(5), np.ones((2, 5)), 'text',
        np.array([0., .1, .2, .3, .9])]
ODD = ['', 'text', 3, ['c']]

# name: (function, [(valid arguments, {argument: values never valid},
#                                     {argument: values that do not fit the others})])
F = {}


def add(name, f, base, bad, rel=(), kw=()):
    F.setdefault(name, (f, []))[1].append((base, bad, dict(rel)))


for g in (S1, S2, T1, T2, GS, GT):
    for m in ('tustin', 'zoh', 'foh', '>>', '<<'):
        add('discretize', discretize, {'G': g, 'dt': 0.1, 'method': m},
            {'G': NOT + [D1, DT, GD], 'dt': ['text', [.1, .2], 0., -1., np.nan, 1j, None],
             'method': ODD + [None, 'tustins']})
for g in (S1, T2):
    add('discretize', discretize, {'G': g, 'dt': 0.1, 'method': 'tustin', 'prewarp_at': 1.},
        {'G': NOT + [D1, DT, GD], 'method': ODD, 'prewarp_at': [6., 100., 'text']})
    add('discretize', discretize, {'G': g, 'dt': 0.1, 'method': 'lft', 'q': [[1., .3], [.3, .05]]},
        {'G': NOT + [D1, DT, GD], 'method': ODD,
         'q': [None, 3, I3, N23, [1, 2, 3, 4], CUBE, 'text', [[1, 2], [3]]]})
for g in (D1, D2, DT, GD):
    for m in ('tustin', 'zoh', 'foh', '>>', '<<'):
        add('undiscretize', undiscretize, {'G': g, 'method': m},
            {'G': NOT + [S1, T1, GS], 'method': ODD + ['tustins']})
for g in (D1, DT):
    add('undiscretize', undiscretize, {'G': g, 'method': 'tustin', 'prewarp_at': 1.},
        {'G': NOT + [S1, T1], 'method': ODD, 'prewarp_at': [6., 100., 'text']})
    add('undiscretize', undiscretize, {'G': g, 'method': 'lft', 'q': [[1., .3], [.3, .05]]},
        {'G': NOT + [S1, T1], 'method': ODD,
         'q': [None, 3, I3, N23, [1, 2, 3, 4], CUBE, 'text', [[1, 2], [3]]]})
for g in (S1, S2, T1, T2, D1, DT, GS):
    add('frequency_response', frequency_response,
        {'G': g, 'w': [.1, 1., 2.], 'w_unit': 'Hz', 'output_unit': 'rad/s'},
        {'G': NOT, 'w': [N23, 'text', CUBE], 'w_unit': ['', 'text', 'Hertz'],
         'output_unit': ['', 'text', 'Hertz']})
for g in (S1, T2, D1):
    for nm, f in (('bode_plot', bode_plot), ('nyquist_plot', nyquist_plot),
                  ('step_response_plot', step_response_plot),
                  ('impulse_response_plot', impulse_response_plot)):
        add(nm, f, {'sys': g}, {'sys': [3, 2.5, 'text', None, [1, 2], [S1, 3], [None], {'a': 1}]})
for nm, f in (('simulate_step_response', simulate_step_response),
              ('simulate_impulse_response', simulate_impulse_response)):
    for g in (S1, S2, T1, T2, D1, DT):
        add(nm, f, {'sys': g, 't': T5}, {'sys': NOT, 't': BADT + [[.5], 3.]})
for g in (S1, S12, T1, D1, DT, GS, GD):
    add('simulate_linear_system', simulate_linear_system, {'sys': g, 'u': np.ones(5), 't': T5},
        {'sys': NOT, 't': BADT, 'u': ['text', CUBE]},
        {'u': [np.ones(4), np.ones((5, 2)), np.ones((2, 5)), []], 't': [T5[:4], [], 0.]})
for g in (S2, T2, D2):
    add('simulate_linear_system', simulate_linear_system, {'sys': g, 'u': np.ones((5, 2)), 't': T5},
        {'sys': NOT, 't': BADT, 'u': ['text', CUBE]},
        {'u': [np.ones(5), np.ones((4, 2)), np.ones((5, 3)), np.ones((2, 5))], 't': [T5[:4]]})
for g in (S1, D1):
    add('simulate_linear_system', simulate_linear_system,
        {'sys': g, 'u': np.ones(5), 't': T5, 'x0': [1.]},
        {'sys': NOT, 't': BADT, 'x0': [[1., 2.], [], I2, 'text', CUBE]}, {'sys': [S2, T1, DT, GS]})
for g in (S2, D2):
    add('simulate_linear_system', simulate_linear_system,
        {'sys': g, 'u': np.ones((5, 2)), 't': T5, 'x0': [1., 2.]},
        {'sys': NOT, 't': BADT, 'x0': [[1.], [1., 2., 3.], I2, 'text', 5.]}, {'sys': [S1, T2]})
for g in (D1, DT):
    add('simulate_linear_system', simulate_linear_system, {'sys': g, 'u': np.ones(5), 't': None},
        {'sys': NOT, 't': BADT + [T5*2, T5/2]}, {'sys': [S1, T1]})
for g in (S1, S2, T1, T2, D1, DT, GS, GT):
    add('system_norm', system_norm, {'G': g, 'p': 2},
        {'G': NOT, 'p': ['inf', 'text', 1, 3, None, -2, -np.inf, np.nan]})
    add('minimal_realization', minimal_realization, {'G': g}, {'G': NOT})
for g in (T1, T2, DT, GT):
    add('transfer_to_state', transfer_to_state, {'G': g, 'output': 'system'},
        {'G': [3, 'text', None, [1, 2], {}], 'output': ODD[:3]})
for g in (S1, S2, D1, GS):
    add('state_to_transfer', state_to_transfer, {'state_or_abcd': g, 'output': 'system'},
        {'state_or_abcd': [3, 'text', None, {}], 'output': ODD[:3]})
for g in (S1, S2, D2, GS):
    add('kalman_decomposition', kalman_decomposition, {'G': g}, {'G': NOT + [T1]})
for g in (S1, S2, D2):
    add('hessenberg_realization', hessenberg_realization, {'G': g, 'form': 'c'},
        {'G': NOT, 'form': ODD[:3] + [None]})
for nm, f, x, b in (('controllability_matrix', controllability_matrix, I2, 0),
                    ('is_kalman_controllable', is_kalman_controllable, I2, 0),
                    ('observability_matrix', observability_matrix, I2, 1),
                    ('is_kalman_observable', is_kalman_observable, I2, 1)):
    for g in (S1, S2, D2, (A2, I2), (A2, C1 if b else B1)):
        add(nm, f, {'G': g}, {'G': [3, 'text', None, {}, T1, (N23, I2), (A2, I3), (I3, I2),
                                    (N23, N23), ('text', 'text')]})
for b in (I2, B1, N23):
    add('controllability_indices', controllability_indices, {'A': A2, 'B': b},
        {'A': ['text', N23, NAN, INF, CUBE, None], 'B': ['text', NAN, INF, CUBE, None]},
        {'A': [I3, [[1.]]], 'B': [N32, [[1.]]]})
    add('cancellation_distance', cancellation_distance, {'F': A2, 'G': b},
        {'F': ['text', N23, NAN, CUBE, None], 'G': ['text', NAN, CUBE, None]},
        {'F': [I3, [[1.]]], 'G': [N32, [[1.]]]})
    for c in (I2, C1):
        for form in 'co':
            add('staircase', staircase, {'A': A2, 'B': b, 'C': c, 'form': form},
                {'A': ['text', N23, None], 'B': ['text', None], 'C': ['text', None],
                 'form': ODD[:3] + [None, 'cc']},
                {'A': [I3, np.eye(1)], 'B': [N32, np.eye(1)], 'C': [N23, np.eye(1)]})
Q2 = np.diag([1., 2.])
for form in ('c', 'd', 'continuous', 'discrete'):
    for e in (None, np.array([[2., 1.], [0., 1.]])):
        add('lyapunov_eq_solver', lyapunov_eq_solver,
            {'A': A2/4, 'Y': Q2, 'E': e, 'form': form},
            {'A': ['text', N23, None], 'Y': ['text', N23, None],
             'E': ['text', N23, np.eye(1), I3], 'form': ODD[:3] + [None, 'cd']},
            {'A': [I3, np.eye(1)], 'Y': [I3, np.eye(1)]})
for g in (S2, T2, D2):
    add('lqr', lqr, {'G': g, 'Q': np.eye(g.NumberOfOutputs), 'weight_on': 'output'},
        {'G': NOT + [GS, GT], 'Q': ['text', N23, I3, np.eye(1), None],
         'weight_on': ['', 'text', 'inputs']})
    add('lqr', lqr, {'G': g, 'Q': I2, 'R': I2, 'S': np.zeros((2, 2)), 'weight_on': 'output'},
        {'G': NOT + [GS, GT], 'R': ['text', N23, I3, np.eye(1)],
         'S': ['text', N23, I3, np.eye(1)], 'weight_on': ['', 'text']})
for g in (S2, D2):
    add('lqr', lqr, {'G': g, 'Q': I2, 'R': I2, 'weight_on': 'state'},
        {'G': NOT + [GS, GT], 'Q': ['text', N23, I3, np.eye(1), None], 'R': ['text', N23, I3, np.eye(1)],
         'weight_on': ['', 'text']})
for g in (S12, (A2, B1)):
    add('ackermann', ackermann, {'G': g, 'loc': [-5., -6.]},
        {'G': [3, 'text', None, {}, S2, (A2, I2), (A2, np.zeros((2, 1))), (I3, B1), T1],
         'loc': ['text', [-1.], [-1., -2., -3.], [[-1., -2.]], [-1+1j, -2.], [-1+1j, -1+1j],
                 None]})
for h in (S1, T1, GS, 2, 2.5, np.array([[3.]])):
    for g in (S1, T1, GS):
        add('feedback', feedback, {'G': g, 'H': h},
            {'G': ['text', None, {}, [1, 2]], 'H': ['text', None, {}]},
            {'H': [D1, DT, S2, T2, N23] + ([I3] if g is not GS else [])})
for h in (S2, T2, I2):
    for g in (S2, T2):
        add('feedback', feedback, {'G': g, 'H': h}, {'G': ['text', None, {}], 'H': ['text', None, {}]},
            {'H': [D1, DT, D2, S3, N23, I3, S3[:, :2], S3[:2, :]]})
for side in ('right', 'left'):
    for n in (N23, I2, [[1, 2]]):
        add('haroldker', haroldker, {'N': n, 'side': side},
            {'N': ['text', None, {}, CUBE], 'side': ['', 'text', 3, None]})
for n in (N23, I2, [[1, 2]]):
    add('haroldsvd', haroldsvd, {'A': n}, {'A': ['text', None, {}, CUBE]})
for a in ([1, 2], [1j, -1j], [1+1j, 2, 1-1j], np.array([3.])):
    add('pair_complex_numbers', pair_complex_numbers, {'a': a},
        {'a': ['text', [1j], [1j, 2j], [1j, -1j, 1j], [1+1j, 2-1j], np.ones((2, 2)), [[1, 2], [3]]]})
for c in ('ne', 'nw', 'se', 'sw'):
    add('matrix_slice', matrix_slice, {'M': I3, 'corner_shape': (1, 2), 'corner': c},
        {'M': [3, 'text', None, np.ones(3), CUBE], 'corner_shape': [3, None, (1,), (1, 2, 3), 'ab'],
         'corner': ['', 'text', 'n', None, 'NE']})
for p in ([1, 2], [2., 4., 2.]):
    add('haroldcompanion', haroldcompanion, {'somearray': p},
        {'somearray': [3, 'text', None, {}, (1, 2), [0], [0., 0.], ['a', 'b']]})
    add('haroldpoly', haroldpoly, {'rootlist': p},
        {'rootlist': [3, None, 2.5, ['a'], 'text', np.ones((2, 2))]})
    for q in ([1, 3], [1, 2, 1]):
        add('haroldlcm', lambda x, y: haroldlcm(x, y), {'x': p, 'y': q},
            {'x': [[[1, 2], [3, 4]], ['a'], 'text', []],
             'y': [[[1, 2], [3, 4]], ['a'], 'text', []]})
        add('haroldgcd', lambda x, y: haroldgcd(x, y), {'x': p, 'y': q},
            {'x': [[[1, 2], [3, 4]]], 'y': [[[1, 2], [3, 4]]]})
        add('haroldpolydiv', haroldpolydiv, {'dividend': p, 'divisor': q},
            {'dividend': [[[1, 2], [3, 4]]], 'divisor': [[0.], [0, 0], []]})
add('random_state_model', random_state_model, {'n': 2, 'p': 1, 'm': 1},
    {'n': ['text', None, -1, [2]], 'p': ['text', None, -1, 0], 'm': ['text', None, -1, 0]})
for w in (1, 2, 5):
    for o in 'cr':
        add('e_i', e_i, {'width': w, 'nth': 0, 'output': o},
            {'width': ['text', None], 'nth': ['text', w, -w-1, [0, w], 1.5]})
for g in (GS, GT, State([[1., 2.]]), Transfer([[1], [2]])):
    add('to_array', lambda G: G.to_array(), {'G': g}, {'G': [S1, S2, T1, T2, D1, DT]})
for p in (A2, N23[:, :2]):
    for b in (I2, B1):
        add('state_to_transfer tuple', lambda A, B, C, D: state_to_transfer((A, B, C, D)),
            {'A': p, 'B': b, 'C': I2, 'D': np.zeros(b.shape)},
            {'A': ['text', N23, CUBE], 'B': ['text', CUBE], 'C': ['text', CUBE],
             'D': ['text', CUBE, I3]},
            {'A': [I3], 'B': [N32], 'C': [N23], 'D': [N23]})
for nu, de in ((1, [1, 2]), ([[1, 2]], [[[1, 2], [1, 3]]])):
    add('transfer_to_state tuple', lambda num, den: transfer_to_state((num, den)),
        {'num': nu, 'den': de}, {'num': ['text', {}], 'den': ['text', {}, 0, [0, 0]]},
        {'num': [[1, 2, 3], [[1], [1, 2]]]})
add('concatenate_state_matrices', concatenate_state_matrices, {'G': S2}, {'G': NOT + [T1]})

N = sum(len(g) for _, g in F.values())
BOUNDS = {'quick': '%d functions, %d valid calls covering their options; in each, every argument '
                   'replaced by every unusable value, and every two arguments by every pair of '
                   'unusable values' % (len(F), N)}
BOUNDS['thorough'] = BOUNDS['quick'] + ', and every three arguments by every triple'
ASSUMPTIONS = ['values that fit in isolation but not with the other arguments are only tried alone',
               'which exception type refuses a call is not judged, except that exceptions about '
               'unassigned names count as a breakdown']


def cases(tier):
    return [[k, i, 3 if tier == 'thorough' else 2] for k in F for i in range(len(F[k][1]))]


def show(x):
    s = repr(x).replace('\n', ' ') if not isinstance(x, (State, Transfer)) else \
        '<%s %dx%d%s>' % (type(x).__name__, *x.shape, ' Z' if x.SamplingSet == 'Z' else '')
    return s if len(s) < 40 else s[:37] + '...'


def run(case, rep):
    name, i, depth = case
    f, groups = F[name]
    base, bad, rel = groups[i]
    todo = [({}, True)]
    for k in base:
        todo += [({k: v}, False) for v in bad.get(k, []) + rel.get(k, [])]
    for d in range(2, depth+1):
        for ks in itertools.combinations(base, d):
            todo += [(dict(zip(ks, vs)), False)
                     for vs in itertools.product(*[bad.get(k, []) for k in ks])]
    for new, good in todo:
        rep.step()
        args = dict(base, **new)
        key = '%s(%s)' % (name, ', '.join('%s=%s' % (k, show(v)) for k, v in args.items()))
        rep.state(name, i, key)
        rep.trace()
        if name.endswith('plot'):
            r = call(f, *args.values())
        else:
            r = call(f, **args)
        plt.close('all')
        if good:
            if isinstance(r, Err):
                rep.violation(key, 'refused', repr(r))
            else:
                rep.outcome('answered ' + name)
        elif not isinstance(r, Err):
            rep.violation(key, 'answered %s %s' % (name, '+'.join(new)), 'returned %s' % show(r))
        elif isinstance(r.exc, NameError):
            rep.violation(key, 'broke %s %s' % (name, '+'.join(new)), repr(r))
        else:
            rep.outcome('refused ' + r.name)
