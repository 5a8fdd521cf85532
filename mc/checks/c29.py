"""Printed summaries of models."""
import itertools
import re

import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss
from .c17 import CONT, DISC, modal
from harold import State

DTS = {'quick': [0.25, 1., 20.], 'thorough': [0.001, 0.25, 1., 3, 20.]}
BOUNDS = {t: 'single-channel models with every multiset of up to %d modes from %d continuous and %d discrete '
          'pole locations (state and transfer form), 1x1..3x3 models of both kinds including static ones; '
          'sampling periods %s' % (3 if t == 'quick' else 4, len(CONT), len(DISC), DTS[t]) for t in DTS}
ASSUMPTIONS = ['the printed form is searched for numbers and for count words, its layout is free']
CHUNK = 4
NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf')


def cases(tier):
    out = []
    for k in range(1, (3 if tier == 'quick' else 4)+1):
        out += [['poles', list(c), None] for c in itertools.combinations_with_replacement(sorted(CONT), k)]
        out += [['poles', list(c), dt] for c in itertools.combinations_with_replacement(sorted(DISC), k)
                for dt in DTS[tier]]
    out += [['named', n, dt] for n in list(alpha.TRANSFERS) + list(alpha.STATES) for dt in [None] + DTS[tier]]
    return out


def summary(rep, key, g, dt):
    r = call(repr, g)
    s = call(str, g)
    if isinstance(r, Err) or isinstance(s, Err):
        return rep.violation(key, 'print refused', repr(r))
    p, m = g.shape
    low = r.lower()
    if ('state' if isinstance(g, State) else 'transfer') not in low:
        return rep.violation(key, 'kind', 'the kind of model is not named: %r' % r[:80])
    if ('continuous' in low) != (dt is None) or ('discrete' in low) != (dt is not None):
        return rep.violation(key, 'domain', 'wrong time domain: %r' % r[:80])
    found = [float(x) for x in NUMBER.findall(r)]
    if dt is not None and not (any(abs(x-dt) <= 1e-3 for x in found) and
                               any(abs(x-1/dt) <= 1e-3*(1+1/dt) for x in found)):
        return rep.violation(key, 'period', 'period %g is not shown: %r' % (dt, r[:120]))
    n = np.size(g.poles)
    if n == 0 and not np.size(g.zeros):
        if re.search(r'\b%d\s*x\s*%d\b' % (p, m), low) is None:
            return rep.violation(key, 'size', 'size %dx%d is not shown: %r' % (p, m, r))
        return rep.outcome('static text')
    for word, count in (('input', m), ('output', p)) + ((('state', g.NumberOfStates),) if
                                                         isinstance(g, State) else ()):
        if re.search(r'(?<![\d.])%d\s+%s' % (count, word), low) is None:
            return rep.violation(key, 'size', '%d %s(s) are not shown: %r' % (count, word, r[:160]))
    # every part of every pole and zero is printed, to the digits shown
    left = list(found)
    for z in np.r_[np.ravel(g.poles), np.ravel(g.zeros)].astype(complex):
        for x in (z.real, z.imag):
            y = min(left, key=lambda y: 0. if y == x else abs(x-y), default=np.nan)
            if not (y == x or abs(x-y) <= 1e-4*abs(x) + 1e-12):
                return rep.violation(key, 'poles and zeros', '%g of %s is not shown: %r' % (x, z, r))
            left.remove(y)
    rep.outcome('text with %d numbers' % len(found))


def judge(rep, key, spec):
    rep.trace()
    rep.step()
    rep.state(key)
    g = spec.build()
    summary(rep, key, g, spec.dt)


def run(case, rep):
    kind, what, dt = case
    if kind == 'poles':
        locs = [(CONT if dt is None else DISC)[k] for k in what]
        num, den = modal(locs, 'plain')
        key = '%s dt=%s' % ('|'.join(what), dt)
        judge(rep, 'T ' + key, Tf([[(num.tolist(), den.tolist())]], dt))
        n = len(den)-1
        a = np.zeros((n, n))
        k = 0
        for r in locs:
            if np.isscalar(r):
                a[k, k] = r
                k += 1
            else:
                a[k:k+2, k:k+2] = [[r[0], r[1]], [-r[1], r[0]]]
                k += 2
        judge(rep, 'S ' + key, Ss(a, np.ones((n, 1)), np.ones((1, n)), [[1.]], dt))
        judge(rep, 'M ' + key, Ss(a, np.eye(n)[:, :2] if n > 1 else [[1., 2]],
                                  np.ones((3, n)), np.zeros((3, 2)), dt))
    else:
        judge(rep, '%s dt=%s' % (what, dt), (alpha.TRANSFERS.get(what) or alpha.STATES[what]).with_dt(dt))
