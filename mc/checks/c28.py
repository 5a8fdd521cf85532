"""Bounds on the distance to an uncontrollable pair."""
import itertools

import numpy as np

from ..core import call, Err
from .. import env
from harold import cancellation_distance

DRAWS = {'quick': (0.1, 0.8), 'thorough': (0.05, 0.4, 0.8)}
BOUNDS = {'quick': 'every pair with order 1 and 2 and entries in {-1,0,1} with one input (all two-input pairs '
          'with entries in {0,1}); all companion, diagonal, Jordan and shifted pairs of order 3 and 4 '
          'over small alphabets with 1 and 2 inputs; scalings 1e-3, 1, 1e3 of the pair; for one-input '
          'pairs of order 1 and 2 every assignment of two values to the random draws, otherwise five '
          'fixed patterns',
          'thorough': 'as quick, with three values per draw, all two-input pairs of order 2 with entries in '
          '{-1,0,1} and all pairs of order 3 with entries in {0,1} and one input'}
ASSUMPTIONS = ['the library asks numpy.random.rand for its random matrix; the check answers these draws',
               'the lower bound is compared with the smallest singular value over the eigenvalues and a '
               'fixed set of points in the complex plane']
CHUNK = 1
PATTERNS = {'alt': lambda k: np.where(np.arange(k) % 2, 0.9, 0.2), 'ramp': lambda k: (np.arange(k)+1)/(k+1),
            'golden': lambda k: np.modf((np.arange(k)+1)*0.6180339887)[0],
            'equal': lambda k: np.full(k, 0.8), 'centre': lambda k: np.full(k, 0.5)}


def cases(tier):
    out = [['n2', list(f), tier] for f in itertools.product((-1, 0, 1), repeat=4)]
    out += [['n1'], ['types'], ['refuse']]
    out += [['family', k, n] for k in ('companion', 'diagonal', 'jordan', 'shift') for n in (3, 4)]
    if tier == 'thorough':
        out += [['n3', list(f)] for f in itertools.product((0, 1), repeat=9)]
    return out


def smallest(F, G, l):
    return np.linalg.svd(np.c_[F - l*np.eye(len(F)), G], compute_uv=False)[-1]


def judge(rep, key, F, G, draws):
    size = max(1e-300, np.linalg.norm(np.c_[F, G], 2))
    g = np.linspace(-1., 1., 7)*size
    pts = np.r_[np.linalg.eigvals(F), (g[:, None] + 1j*np.abs(g[None, 3:])).ravel()]
    true = min(smallest(F, G, l) for l in pts)
    for name, values in draws:
        rep.trace()
        rep.step()
        rep.state((key, name))
        k = '%s draw %s' % (key, name)
        F0, G0 = F.copy(), G.copy()
        with env.scripted(rand=lambda *s: values(int(np.prod(s))).reshape(s)):
            r = call(cancellation_distance, F, G)
        if isinstance(r, Err):
            rep.violation(k, 'refused', repr(r))
            continue
        if not (np.array_equal(F, F0) and np.array_equal(G, G0)):
            rep.violation(k, 'mutated', 'the arguments were changed')
        if not isinstance(r, tuple) or len(r) != 5:
            rep.violation(k, 'form', 'not five values: %r' % (r,))
            continue
        up2, up1, low, e, rad = r
        if not (np.isreal(up2) and np.isfinite(up2) and up2 >= 0):
            rep.violation(k, 'upper', 'upper bound %r' % (up2,))
            continue
        at = smallest(F, G, e)
        if not rep.close('upper', up2, at, 1e-7, scale=size):
            rep.violation(k, 'upper', 'upper bound %g, but the pencil at %s is %g from rank '
                          'deficiency' % (up2, e, at))
            continue
        if up1 < up2 - 1e-7*size:                 # nan when the eigenvector has no part in the pencil
            rep.violation(k, 'soft', 'the softer bound %g is below the sharper %g' % (up1, up2))
            continue
        if not 0 <= low <= true + 1e-6*size:
            rep.violation(k, 'lower', 'lower bound %g above the distance %g' % (low, true))
            continue
        if rad < up2*(1 - 1e-6):
            rep.violation(k, 'radius', 'radius %g below the bound %g' % (rad, up2))
            continue
        # exactly uncontrollable pairs have an eigenvalue in the enlarged matrix (multiplicity up to 4)
        if true < 1e-12*size and up2 > 1e-3*size:
            rep.violation(k, 'uncontrollable', 'upper bound %g for an uncontrollable pair' % up2)
            continue
        if true > 1e-3*size and up2 < 1e-9*size:
            rep.violation(k, 'controllable', 'zero distance for a controllable pair')
            continue
        rep.outcome('zero' if up2 < 1e-7*size else 'positive')


def every_draw(k, values):
    for d in itertools.product(values, repeat=k):
        yield ','.join('%g' % x for x in d), (lambda n, d=d: np.resize(np.array(d), n))


def patterns():
    return list(PATTERNS.items())


def family(kind, n):
    if kind == 'companion':
        for c in itertools.product((-1., 0., 2.), repeat=n):
            F = np.diag(np.ones(n-1), 1)
            F[-1] = c
            yield F
    elif kind == 'diagonal':
        for c in itertools.combinations_with_replacement((-2., -1., 0., 1.), n):
            yield np.diag(c)
    elif kind == 'jordan':
        for c in itertools.product((0., 1.), repeat=n-1):
            for l in (0., -1., 3.):
                yield l*np.eye(n) + np.diag(c, 1)
    else:
        for c in itertools.product((-1., 1., 0.5), repeat=n):
            yield np.roll(np.diag(c), 1, axis=0)


def run(case, rep):
    kind = case[0]
    if kind == 'n1':
        for f in (-1., 0., 2.):
            for m in (1, 2):
                for b in itertools.product((-1., 0., 1e-3), repeat=m):
                    judge(rep, 'n1 %g %s' % (f, b), np.array([[f]]), np.array([b]),
                          every_draw((m+1)*m, DRAWS['quick']))
    elif kind == 'n2':
        tier = case[2]
        F = np.array(case[1], float).reshape(2, 2)
        for b in itertools.product((-1., 0., 1.), repeat=2):
            G = np.array([b]).T
            judge(rep, 'n2 %s %s' % (case[1], b), F, G, every_draw(3, DRAWS[tier]))
            for s in (1e-3, 1e3):
                judge(rep, 'n2 %s %s *%g' % (case[1], b, s), s*F, s*G, patterns())
        for b in itertools.product((-1., 0., 1.) if tier == 'thorough' else (0., 1.), repeat=4):
            judge(rep, 'n2 %s %s' % (case[1], b), F, np.array(b).reshape(2, 2), patterns())
    elif kind == 'n3':
        F = np.array(case[1], float).reshape(3, 3)
        for b in itertools.product((0., 1.), repeat=3):
            judge(rep, 'n3 %s %s' % (case[1], b), F, np.array([b]).T, patterns())
    elif kind == 'family':
        for i, F in enumerate(family(case[1], case[2])):
            n = len(F)
            for gname, G in (('first', np.eye(n)[:, :1]), ('last', np.eye(n)[:, -1:]),
                             ('ones', np.ones((n, 1))), ('zero', np.zeros((n, 1))),
                             ('two', np.eye(n)[:, [0, -1]]), ('twin', np.ones((n, 2)))):
                judge(rep, '%s%d #%d %s' % (case[1], n, i, gname), F, G, patterns())
    elif kind == 'types':
        types(rep)
    else:
        refuse(rep)


def types(rep):
    F, G = np.array([[0, 1], [-2, -3]]), np.array([[0], [1]])
    draw = PATTERNS['ramp']

    def ask(*s):
        return draw(int(np.prod(s))).reshape(s)

    with env.scripted(rand=ask):
        ref = cancellation_distance(F.astype(float), G.astype(float))
    for name, a in (('list', (F.tolist(), G.tolist())), ('int', (F, G)), ('tuple', (((0, 1), (-2, -3)), ((0,), (1,)))),
                    ('fortran', (np.asfortranarray(F, float), np.asfortranarray(G, float))),
                    ('mixed', (F, G.tolist()))):
        rep.trace()
        rep.step()
        rep.state(name)
        with env.scripted(rand=ask):
            r = call(cancellation_distance, *a)
        if isinstance(r, Err):
            rep.violation('types ' + name, 'refused', repr(r))
        elif not np.allclose(np.array(r, complex), np.array(ref, complex), rtol=1e-9):
            rep.violation('types ' + name, 'value', '%s instead of %s' % (r, ref))
        else:
            rep.outcome('types')


def refuse(rep):
    for name, a in (('not square', (np.ones((2, 3)), np.ones((2, 1)))), ('rows', (np.eye(2), np.ones((3, 1)))),
                    ('row vector', (np.eye(3), np.ones((1, 3))))):
        rep.trace()
        rep.step()
        rep.state(name)
        r = call(cancellation_distance, *a)
        if not isinstance(r, Err) or r.name != 'ValueError':
            rep.violation('refuse ' + name, 'accepted', '%s' % (r,))
        else:
            rep.outcome('refused')
