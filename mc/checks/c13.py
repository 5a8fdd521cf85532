"""Feedback connection against the closed-loop formula."""
import numpy as np

from ..core import call, Err
from .. import alpha
from ..ref import Tf, Ss, Num, PTS, obj_values, obj_inf, same_values, model_state
from harold import Transfer, State, feedback

OPER = dict(alpha.ALL)
OPER.update(n_c=Num(2+0j), s_n1=Ss(None, None, None, [[-1]]), n_1=Num(1), n_m1=Num(-1.),
            t_o=Tf([[([1, 3], [1, 1])]]), t_om=Tf([[([-1, 2], [1, 5])]]),
            s_o=Ss([[-2]], [[1]], [[1]], [[1]]),
            t_fc=Tf([[([2, 4], [1, 2])]]), t22_c=Tf([[([2, 4], [1, 2]), ([0], [1])],
                                                     [([1], [1, 1]), ([3, 3], [1, 1])]]))
NAMES = list(OPER)
BOUNDS = {'quick': 'all ordered pairs of %d operands (transfer and state models 1x1..3x3, static, '
          'dynamic, with and without feedthrough, scalars, arrays), both signs, continuous, '
          'discrete and mismatched sampling periods; refused operands; gains 2..199 closed '
          'through their rounded reciprocals, alone and next to a well-posed channel' % len(NAMES),
          'thorough': 'as quick, then every pair closed a second time with 12 operands (nested '
          'loops)'}
ASSUMPTIONS = ['known finding: with the negative sign and feedthrough in both paths the tests of '
               'the repository pin another formula, see DESIGN.md',
               'scalars are not broadcast to larger loops (documented); one-dimensional arrays may '
               'be refused']
CHUNK = 2
SECOND = ['t_k3', 't_p1', 't_bp', 's_k3', 's_p1', 's_2', 'n_2', 't22_d', 's22_d', 's22_k', 'a22',
          't22_b']


def cases(tier):
    out = [[x, neg, dts, 0] for x in NAMES for neg in (True, False)
           for dts in ([None, None], [0.5, 0.5], [None, 0.5], [0.5, 0.25])]
    if tier != 'quick':
        out += [[x, neg, [None, None], 1] for x in SECOND for neg in (True, False)]
    return out + [['bad', True, [None, None], 0], ['bad', False, [0.5, 0.5], 0]]


def with_dt(spec, dt):
    return spec if spec.kind == 'N' else spec.with_dt(dt)


def stack(spec):
    return np.concatenate((spec.values(), spec.inf()[None]))


def closed(gv, hv, sign):
    """(I - sign G H)^-1 G on every point."""
    out = np.empty_like(gv)
    with np.errstate(all='ignore'):
        for k in range(len(gv)):
            m = np.eye(gv.shape[1]) - sign*gv[k] @ hv[k]
            try:
                out[k] = np.linalg.solve(m, gv[k])
            except np.linalg.LinAlgError:
                out[k] = np.inf
    return out


def legacy(g, h, gv, hv):
    """What the pinned expectations of the test suite amount to for the negative sign: the
    direct feedthrough product ND enters the inverted matrix with the other sign."""
    d, n = gv[-1], hv[-1]
    delta = np.eye(d.shape[1]) - n @ d
    if np.min(np.linalg.svd(delta, compute_uv=False)) <= 1e-10:
        return None
    # u = r - e, e the loop signal; solve e = delta^-1 (n y0 + strictly proper parts)
    out = np.empty_like(gv)
    for k in range(len(gv)):
        gs, hs = gv[k] - d, hv[k] - n
        # x-parts: y = gs u + d u ; q = hs y + n gs u  (all but n d r), v = -delta^-1 (q' + n d r)
        # with u = r + v, y = (gs+d) u, signal entering delta: n gs u + hs y + n d r
        m = gv.shape[2]
        di = np.linalg.inv(delta)
        lhs = np.eye(m) + di @ (n @ gs + hs @ (gs + d))
        rhs = np.eye(m) - di @ (n @ d)
        u = np.linalg.solve(lhs, rhs)
        out[k] = (gs + d) @ u
    return out


def conv_kind(g, h):
    ks = g.kind + h.kind
    return 'S' if 'S' in ks or ks == 'NN' else 'T'


def judge(rep, key, gs, hs, g, h, neg, nested=False):
    rep.trace()
    rep.step()
    rep.state(key)
    b1, b2 = model_state(g), model_state(h)
    r = call(feedback, g, h, neg) if not neg else call(feedback, g, h)
    if model_state(g) != b1 or model_state(h) != b2:
        rep.violation(key, 'mutated', 'an argument was changed')
        return None
    if gs.shape != hs.shape[::-1]:
        rep.outcome('nonconforming')
        if not isinstance(r, Err):
            rep.violation(key, 'accepted', 'shapes %s and %s' % (gs.shape, hs.shape))
        return None
    if gs.kind != 'N' and hs.kind != 'N' and gs.dt != hs.dt:
        rep.outcome('periods differ')
        if not isinstance(r, Err):
            rep.violation(key, 'accepted', 'sampling periods %s and %s' % (gs.dt, hs.dt))
        return None
    sign = -1. if neg else 1.
    gv, hv = stack(gs), stack(hs)
    cond = np.min(np.linalg.svd(np.eye(gs.shape[0]) - sign*gv[-1] @ hv[-1], compute_uv=False))
    pinned = neg and np.any(np.abs(hv[-1] @ gv[-1]) > 1e-12)
    if pinned and nested:
        rep.skip('negative sign, feedthrough in both paths')
        return None
    bad = None
    if cond < 1e-9:
        if isinstance(r, Err):
            rep.outcome('ill posed')
            return None
        bad = ('accepted', 'ill-posed loop accepted')
    elif isinstance(r, Err):
        bad = ('refused', repr(r))
    if bad is None:
        kind = conv_kind(gs, hs)
        dt = gs.dt if gs.kind != 'N' else hs.dt
        if not isinstance(r, State if kind == 'S' else Transfer):
            bad = ('kind', type(r).__name__)
        elif tuple(r.shape) != gs.shape:
            bad = ('shape', '%s instead of %s' % (r.shape, gs.shape))
        elif r.SamplingPeriod != dt:
            bad = ('period', '%s instead of %s' % (r.SamplingPeriod, dt))
        else:
            v = call(obj_values, r)
            ref = closed(gv, hv, sign)
            if isinstance(v, Err):
                bad = ('value', repr(v))
            else:
                v = np.concatenate((v, obj_inf(r)[None]))
                tol = 1e-6 if isinstance(r, State) else 1e-5
                if not same_values(rep, 'closed ' + kind, v, ref, tol):
                    bad = ('value', 'wrong values %s, %s expected' % (np.ravel(v)[:3],
                                                                      np.ravel(ref)[:3]))
    if bad is None:
        rep.outcome('closed %s%s' % (kind, ' static' if gs.gain and hs.gain else ''))
        return r
    if pinned:
        # the pinned formula: only exactly that outcome carries the finding's signature
        lv = legacy(gs, hs, gv, hv)
        if lv is None and isinstance(r, Err):
            bad = ('legacy', 'refused although well posed')
        elif lv is not None and bad[0] in ('value', 'accepted') and not isinstance(r, Err):
            v = call(obj_values, r)
            if not isinstance(v, Err) and tuple(r.shape) == gs.shape:
                v = np.concatenate((v, obj_inf(r)[None]))
                if same_values(rep, 'legacy', v, lv, 1e-5):
                    bad = ('legacy', 'I - ND instead of I + ND')
    rep.violation(key, *bad)
    return None


def pairs(rep, key, d, n, dt, tag):
    b = np.eye(2)
    for i, g in enumerate((State(d, dt=dt), State(-b, b, b, d, dt), Transfer(d.tolist(), dt=dt))):
        for j, h in enumerate((n, State(n, dt=dt), State(-2*b, b, b, n, dt))):
            for flip in (False, True):
                rep.step()
                rep.trace()
                name = 'reciprocal %d pair %d form %d,%d,%d %s' % (key + (i, j, flip, tag))
                rep.state(name)
                x = g[::-1, ::-1] if flip else g
                y = h[::-1, ::-1] if flip else h
                if not isinstance(call(feedback, x, y, False), Err):
                    rep.violation(name, 'accepted', 'one loop gain is one at infinity')
                else:
                    rep.outcome('ill posed')


def rounded(rep, dt, tag):
    """Loops that are ill posed up to the rounding of reciprocals."""
    for k in range(2, 200):
        forms = [State(float(k), dt=dt), Transfer(float(k), dt=dt), State(-1., 1., 1., k, dt),
                 Transfer([k, 1], [1, 2], dt)]
        for i, g in enumerate(forms):
            for j, h in enumerate((1/k, State(1/k, dt=dt), Transfer(1/k, dt=dt),
                                   State(-2., 1., 1., 1/k, dt))):
                rep.step()
                rep.trace()
                key = 'reciprocal %d form %d,%d %s' % (k, i, j, tag)
                rep.state(key)
                if not isinstance(call(feedback, g, h, False), Err):
                    rep.violation(key, 'accepted', 'loop gain one at infinity')
                else:
                    rep.outcome('ill posed')
        # only one channel of several
        for e, d in enumerate(([[k, 0.], [1., .5]], [[k, 0.], [0., -2.**10]])):
            pairs(rep, key=(k, e), d=np.array(d), n=np.diag([1/k, 1.]), dt=dt, tag=tag)


def run(case, rep):
    x, neg, dts, nested = case
    tag = '%s dt=%s' % ('neg' if neg else 'pos', '/'.join(map(str, dts)))
    if x == 'bad':
        for k in ('t_p1', 's_p1', 't22_d', 's22_d', 's_k3', 't_k3'):
            g = OPER[k].with_dt(dts[0]).build()
            for name, b in list(alpha.BAD.items()) + [('x_3d', np.ones((2, 2, 2)))]:
                if name == 'x_list' and k[1] == '_':
                    b = [1, 2, 3]
                for args in ((g, b), (b, g)):
                    rep.step()
                    rep.trace()
                    key = 'bad %s %s %s' % (k, name, tag)
                    rep.state(key, args[0] is g)
                    if not isinstance(call(feedback, *args, neg), Err):
                        rep.violation(key, 'accepted', 'operand %s accepted' % name)
        if not neg:
            rounded(rep, dts[0], tag)
        return
    gs = with_dt(OPER[x], dts[0])
    if dts[0] is not None and gs.kind == 'N':
        dts = [dts[1], dts[1]]
    if not nested:
        for y in NAMES:
            hs = with_dt(OPER[y], dts[1] if gs.kind != 'N' else dts[1])
            if dts[0] != dts[1] and 'N' in (gs.kind, hs.kind):
                continue
            judge(rep, '%s,%s %s' % (x, y, tag), gs, hs, gs.build(), hs.build(), neg)
        return
    for y in NAMES:
        hs = OPER[y]
        r = judge(rep, '%s,%s %s' % (x, y, tag), gs, hs, gs.build(), hs.build(), neg)
        if r is None:
            continue
        for z in SECOND:
            for neg2 in (True, False):
                ks = OPER[z]
                k = '%s,%s %s,%s %s' % (x, y, tag, z, neg2)
                inner = Closed(r)
                if ks.kind + inner.kind == 'TT' and inner.shape == (2, 2):
                    continue            # orders beyond what coefficient form can carry
                judge(rep, k, inner, ks, r, ks.build(), neg2, True)
                judge(rep, k + ' swapped', ks, inner, ks.build(), r, neg2, True)


class Closed:
    """A model that was already verified, used as an operand."""
    def __init__(self, r):
        self.r = r
        self.kind = 'S' if isinstance(r, State) else 'T'
        self.shape = tuple(r.shape)
        self.dt = r.SamplingPeriod
        self.gain = np.size(r.poles) == 0

    def values(self):
        return obj_values(self.r)

    def inf(self):
        return obj_inf(self.r)
