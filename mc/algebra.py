"""Reference semantics of the operators, and one checked step of an operator."""
import operator

import numpy as np

from . import env
from .core import call, Err
from .ref import PTS, obj_values, obj_inf, same_values, model_state, good
from harold import Transfer, State

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '@': operator.matmul,
       '/': operator.truediv}


class Val:
    """Reference state of an operand or result.

    v stacks the values on PTS and, last, the value at infinity (the feedthrough)."""
    __slots__ = ('kind', 'shape', 'dt', 'v', 'gain', 'scalar', 'vec')

    def __init__(self, kind, shape, dt, v, gain, scalar=False, vec=False):
        self.kind, self.shape, self.dt, self.v = kind, tuple(shape), dt, v
        self.gain, self.scalar, self.vec = gain, scalar, vec

    @classmethod
    def of(cls, spec, dt='own'):
        dt = spec.dt if dt == 'own' else dt
        v = np.concatenate((spec.values(), spec.inf()[None]))
        if spec.kind == 'N':
            return cls('N', spec.shape, None, v, True, spec.scalar,
                       np.ndim(spec.x) == 1 and np.size(spec.x) > 1)
        return cls(spec.kind, spec.shape, dt, v, spec.gain)


MUST, MAY, REJECT = 'must', 'may', 'reject'


def _ew(f, x, y):
    """Elementwise with broadcasting of the trailing matrix axes."""
    try:
        return f(x.v, y.v)
    except ValueError:
        return None


def additive(x, y, f):
    v = _ew(f, x, y)
    one = x if x.shape == (1, 1) else (y if y.shape == (1, 1) else None)
    if x.vec or y.vec:
        # a 1-D array is a row; single-channel models are spread over it
        return (MUST if (y if x.vec else x).shape == (1, 1) else MAY), v
    if x.shape == y.shape:
        return MUST, v
    if one is not None:
        if one.kind == 'N' and not one.scalar:
            return MAY, v
        return MUST, v
    if v is not None:
        return MAY, v
    return REJECT, None


def elementwise(x, y):
    v = _ew(operator.mul, x, y)
    if x.shape == y.shape or (1, 1) in (x.shape, y.shape):
        return MUST, v
    if v is not None:
        return MAY, v
    return REJECT, None


def matrix(x, y, state):
    """x @ y; `state` if state-space rules (mixed or state) apply."""
    if x.vec or y.vec:
        w = None
        if x.shape[1] == y.shape[0]:
            w = x.v @ y.v
        elif (1, 1) in (x.shape, y.shape):
            w = x.v * y.v
        if w is None:
            return 'any', w
        return (MUST if x.vec or x.shape == (1, 1) else MAY), w
    if x.shape[1] == y.shape[0]:
        return MUST, x.v @ y.v
    if (1, 1) in (x.shape, y.shape):
        one, oth = (x, y) if x.shape == (1, 1) else (y, x)
        w = x.v * y.v
        if state:
            if one.kind == 'N' and not one.scalar:
                return MAY, w
        return MUST, w
    return REJECT, None


def inverse(y):
    """-> status, values of y^-1"""
    if y.kind == 'N':
        if y.scalar:
            if np.all(y.v == 0):
                return 'any', None
            return MUST, 1/y.v
        if y.shape == (1, 1):
            return MAY, 1/y.v
        return 'any', None
    if y.shape[0] != y.shape[1]:
        return REJECT, None
    return MUST, None


def expect(op, x, y):
    """Reference answer: status, kind, shape-carrying values."""
    models = [m for m in (x, y) if m.kind != 'N']
    kinds = {m.kind for m in models}
    kind = 'S' if 'S' in kinds else 'T'
    dts = {m.dt for m in models}
    if len(dts) > 1:
        return REJECT, kind, None
    if op in '+-':
        st, v = additive(x, y, OPS[op])
    elif op == '*' and kind == 'T':
        st, v = elementwise(x, y)
        if (x.vec or y.vec) and st == REJECT:
            st = 'any'
    elif op in '*@':
        st, v = matrix(x, y, kind == 'S')
    else:
        if y.kind == 'N':
            si, vi = inverse(y)
            if vi is None:
                return si, kind, None
            st, v = MUST if si == MUST else MAY, x.v*vi
        else:
            if y.shape[0] != y.shape[1]:
                return REJECT, kind, None
            s = np.linalg.svd(y.v[-1], compute_uv=False)
            if s[-1] < 1e-9:
                return REJECT, kind, None
            vi = np.linalg.inv(y.v)
            yi = Val(y.kind, y.shape, y.dt, vi, y.gain)
            if x.kind == 'N':
                if x.scalar:
                    st, v = MUST, x.v*vi
                elif x.shape == (1, 1):
                    st, v = MAY, x.v*vi
                else:
                    return 'any', kind, None
            else:
                st, v = matrix(x, yi, kind == 'S')
    return st, kind, v


def judge(rep, key, got, st, kind, v, dt, what):
    """Compare one library answer with the reference answer.

    Returns the Val of the result if it is a verified model, else None."""
    if isinstance(got, Err):
        rep.outcome('raise:' + got.name)
        if st == MUST:
            rep.violation(key, 'raises:' + got.name, 'expected a %s model of shape %s, got %r'
                          % (kind, None if v is None else v.shape[1:], got))
        return None
    if st == REJECT:
        rep.violation(key, 'accepted', 'operands do not conform but a result came back: %s'
                      % (type(got).__name__ + str(getattr(got, 'shape', ''))))
        return None
    if st == 'any' or v is None:
        rep.skip('unspecified result')
        return None
    want = State if kind == 'S' else Transfer
    if not isinstance(got, want):
        rep.violation(key, 'kind', 'expected a %s, got %s' % (want.__name__, type(got).__name__))
        return None
    if tuple(got.shape) != tuple(v.shape[1:]):
        rep.violation(key, 'shape', 'expected shape %s, got %s' % (v.shape[1:], got.shape))
        return None
    if got.SamplingPeriod != dt:
        rep.violation(key, 'period', 'expected sampling period %s, got %s'
                      % (dt, got.SamplingPeriod))
        return None
    rep.state(*model_state(got))
    try:
        w = np.concatenate((obj_values(got), obj_inf(got)[None]))
    except (ValueError, TypeError, np.linalg.LinAlgError) as e:
        rep.violation(key, 'malformed', str(e))
        return None
    ok = same_values(rep, what, w, v, 1e-4 if what == 'nested' else 1e-6)
    if not good(v).any():
        rep.skip('all points near a pole')
        return None
    rep.outcome('ok:%s%dx%d%s' % (kind, got.shape[0], got.shape[1], '' if dt is None else 'd'))
    if not ok:
        k = int(np.argmax(np.abs(w-v).reshape(len(v), -1).max(axis=1)*good(v)))
        rep.violation(key, 'value', 'at %s: expected %s, got %s'
                      % ('inf' if k == len(PTS) else np.round(PTS[k], 4), np.round(v[k], 6).tolist(),
                         np.round(w[k], 6).tolist()))
        return None
    return Val(kind, got.shape, dt, v, False)
