"""Random models: every sequence of categorical draws, extreme uniform draws."""
import itertools

import numpy as np

from .. import env
from ..core import call, Err
from ..ref import is_gain
from harold import State, random_state_model

TOP = 1-2.**-53
RANDS = {'zero': 0., 'half': .5, 'top': TOP, 'mix': None}
DISTS = {None: None, 'r': [1, 0, 0, 0], 'c': [0, 1, 0, 0], 'i': [0, 0, 1, 0], 'o': [0, 0, 0, 1],
         'io': [0, 0, .5, .5], 'rc': [.5, .5, 0, 0], 'ci': [0, .5, .5, 0], 'ro': [.2, 0, 0, .8],
         'all': [.25, .25, .25, .25]}
SDISTS = {None: None, 'r': [1, 0], 'c': [0, 1], 'rc': [.3, .7]}
BOUNDS = {
    'quick': 'orders 0-4, every sequence of answers of the categorical draws x constant 0, 1/2, '
             '1-2^-53 and alternating answers of the uniform draws, 4 stable and 10 unrestricted '
             'pole distributions x continuous and 3 sampling periods; shapes 1x1, 2x1, 1x3, 2x3 '
             'for degenerate distributions up to order 6',
    'thorough': 'as quick up to order 5 and 7'}
ASSUMPTIONS = ['the random orthogonal change of coordinates does not affect poles and shapes; it is '
               'drawn from a fixed generator state per case']
CHUNK = 1


class Script:
    """Answers draws along one path of the decision tree and remembers the alternatives."""
    def __init__(self, prefix, rname):
        self.prefix, self.path, self.width = prefix, [], []
        self.rname, self.k = rname, 0

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None and (len(p) != len(a) or abs(sum(p)-1) > 1e-8 or min(p) < 0):
            raise ValueError('bad probabilities')
        opts = [i for i in range(len(a)) if p is None or p[i] > 0]
        out = []
        for _ in range(1 if size is None else int(np.prod(size))):
            i = self.prefix[len(self.path)] if len(self.path) < len(self.prefix) else 0
            self.path.append(i)
            self.width.append(len(opts))
            out.append(a[opts[i]])
        return out[0] if size is None else np.array(out).reshape(size)

    def rand(self, *s):
        v = RANDS[self.rname]
        n = int(np.prod(s)) if s else 1
        if v is None:
            v = np.array([(0., TOP, .5)[(self.k+i) % 3] for i in range(n)])
        else:
            v = np.full(n, v)
        self.k += n
        return v.reshape(s) if s else float(v[0])

    def next(self):
        """Prefix of the next path, or None."""
        p = list(self.path)
        for i in range(len(p)-1, -1, -1):
            if p[i]+1 < self.width[i]:
                return p[:i]+[p[i]+1]


def cases(tier):
    out = []
    top = 4 if tier == 'quick' else 5
    for stable in (True, False):
        for d in (SDISTS if stable else DISTS):
            for rn in RANDS:
                for dt in (None, .1, 2., 1e-6):
                    out.append(['tree', top, stable, d, rn, dt])
    for stable in (True, False):
        out.append(['shape', top+2, stable])
    return out + [['refuse'], ['default']]


def check(rep, key, g, n, p, m, dt, stable, dist):
    if isinstance(g, Err):
        return rep.violation(key, 'refused', repr(g))
    if type(g) is not State or g.shape != (p, m) or g.SamplingPeriod != dt:
        return rep.violation(key, 'form', '%r' % g)
    if g.NumberOfStates != n or g.NumberOfInputs != m or g.NumberOfOutputs != p or \
            is_gain(g) != (n == 0):
        return rep.violation(key, 'size', '%d states' % g.NumberOfStates)
    if not all(np.all(np.isfinite(x)) for x in g.matrices):
        return rep.violation(key, 'finite', 'not finite')
    if n == 0:
        return rep.outcome('gain')
    if g.a.shape != (n, n) or g.b.shape != (n, m) or g.c.shape != (p, n) or g.d.shape != (p, m):
        return rep.violation(key, 'size', 'matrices')
    ev = np.linalg.eigvals(g.a)
    if stable:
        if not np.all(np.abs(ev) < 1 if dt is not None else ev.real < 0):
            return rep.violation(key, 'stability', 'poles %s' % ev)
    kinds = classify(ev, dt)
    if kinds is not None and dist is not None:
        allow = {'r': 0, 'c': 1, 'i': 2, 'o': 3}
        have = [allow[k] for k in kinds]
        d = list(dist)+[0, 0] if stable else dist
        if d[1] and not d[0] and not d[2] or d[3] and not d[0] and not d[2]:
            if n % 2:                       # a pair does not fit: one real pole is allowed
                d = [1]+list(d[1:])
                if have.count(0) > 1:
                    return rep.violation(key, 'kinds', 'pole kinds %s' % kinds)
        if any(not d[k] for k in have):
            return rep.violation(key, 'kinds', 'pole kinds %s for probabilities %s' % (
                kinds, dist))
        rep.outcome('kinds ' + ''.join(sorted(set(kinds))))
    else:
        rep.outcome('n=%d' % n)


def classify(ev, dt):
    """Kinds of poles: real, complex, integrator, on the boundary; None where it is unclear."""
    out = []
    for z in ev:
        if dt is not None:
            if abs(z) < 1e-9 or dt > 1:
                return None
            z = np.log(complex(z))/dt
        if abs(z) < 1e-4:
            out.append('i')
        elif abs(z.imag) < 1e-4:
            out.append('r')
        elif abs(z.real) < 1e-4:
            out.append('o')
        else:
            out.append('c')
    return out


def run(case, rep):
    kind = case[0]
    if kind == 'tree':
        top, stable, dname, rn, dt = case[1:]
        dist = (SDISTS if stable else DISTS)[dname]
        for n in range(top+1):
            prefix = []
            while prefix is not None:
                s = Script(prefix, rn)
                rep.step()
                given = None if dist is None else list(dist)
                with env.scripted(rand=s.rand, choice=s.choice):
                    g = call(random_state_model, n, 1, 1, dt, given, stable)
                key = 'tree n=%d stable=%s %s %s dt=%s %s' % (
                    n, stable, dname, rn, dt, ''.join(map(str, s.path)))
                rep.state(key)
                rep.trace()
                if given != dist:
                    return rep.violation(key, 'mutated', 'the probabilities were changed')
                check(rep, key, g, n, 1, 1, dt, stable, dist)
                prefix = s.next()
    elif kind == 'shape':
        top, stable = case[1:]
        for n, (p, m), dt, (dname, dist), rn in itertools.product(
                range(top+1), ((1, 1), (2, 1), (1, 3), (2, 3)), (None, .1),
                (SDISTS if stable else DISTS).items(), RANDS):
            for first in (0, 1):
                s = Script([first]*(2*n) if first else [], rn)
                rep.step()
                with env.scripted(rand=s.rand, choice=lambda *a, **k: clipped(s, *a, **k)):
                    g = call(random_state_model, n, p, m, dt=dt, prob_dist=dist, stable=stable)
                key = 'shape %d %d %d dt=%s stable=%s %s %s %d' % (
                    n, p, m, dt, stable, dname, rn, first)
                rep.state(key)
                rep.trace()
                check(rep, key, g, n, p, m, dt, stable, dist)
    elif kind == 'default':
        for n in range(6):
            for k in range(3):
                rep.step()
                rep.state('default', n, k)
                rep.trace()
                g = call(random_state_model, n) if k == 0 else call(random_state_model, float(n), 2)
                check(rep, 'default %d %d' % (n, k), g, n, 1 if k == 0 else 2, 1, None, True, None)
    else:
        for kw in (dict(prob_dist=[.5, .5], stable=False), dict(prob_dist=[.25]*4, stable=True),
                   dict(prob_dist=[.5, .6]), dict(prob_dist=[1.5, -.5]), dict(dt=-1.)):
            rep.step()
            key = 'refuse %s' % kw
            rep.state(key)
            r = call(random_state_model, 3, **kw)
            if not isinstance(r, Err) or r.name not in ('ValueError', 'TypeError'):
                rep.violation(key, 'not refused', repr(r))
            rep.outcome('refused')


def clipped(s, a, size=None, replace=True, p=None):
    """A scripted draw that takes the last option where the script asks for more."""
    n = len([1 for i in range(len(a)) if p is None or p[i] > 0])
    k = len(s.path)
    if k < len(s.prefix):
        s.prefix[k] = min(s.prefix[k], n-1)
    return s.choice(a, size, replace, p)
