"""Enumeration of operator expressions over operand alphabets."""
from .core import call
from . import alpha
from .algebra import OPS, Val, expect, judge

DTS = {'c': None, 'd': 0.5}


def enum_pairs(names):
    """Every ordered operand pair with a model of `names`, every operator, both time domains."""
    out = []
    for t in 'cd':
        for x in names:
            out.append(['neg', t, x])
            for y in names:
                for op in OPS:
                    out.append(['pair', t, x, op, y])
            for y in alpha.NUMS:
                for op in OPS:
                    out.append(['pair', t, x, op, y])
                    out.append(['pair', t, y, op, x])
            for y in alpha.BAD:
                for op in OPS:
                    out.append(['bad', t, x, op, y])
                    out.append(['bad', t, y, op, x])
    return out


def enum_nested(firsts, seconds, thirds, times):
    """(x op y) op z and z op (x op y), grouped by the inner expression."""
    out = []
    for t in times:
        for x in firsts:
            for y in seconds:
                if x in alpha.NUMS and y in alpha.NUMS:
                    continue
                for op in OPS:
                    out.append(['nest', t, x, op, y, thirds])
    return out


def operand(name, dt):
    spec = alpha.ALL[name]
    return spec.build(dt), Val.of(spec, dt)


def run(case, rep):
    what, t = case[:2]
    dt = DTS[t]
    key = ' '.join(map(str, case[:5]))
    rep.state('case', key)
    if what == 'neg':
        g, x = operand(case[2], dt)
        rep.step()
        rep.trace()
        judge(rep, key, call(lambda: -g), 'must', x.kind, -x.v, dt, 'neg')
        return
    if what == 'bad':
        a, op, b = case[2:]
        ga = alpha.BAD[a] if a in alpha.BAD else operand(a, dt)[0]
        gb = alpha.BAD[b] if b in alpha.BAD else operand(b, dt)[0]
        rep.step()
        rep.trace()
        judge(rep, key, call(OPS[op], ga, gb), 'reject', 'T', None, dt, 'bad')
        return
    a, op, b = case[2:5]
    (ga, xa), (gb, xb) = operand(a, dt), operand(b, dt)
    st, kind, v = expect(op, xa, xb)
    if st == 'any':
        rep.skip('meaning not specified')
        return
    rep.step()
    got = call(OPS[op], ga, gb)
    if what == 'pair':
        rep.trace()
        judge(rep, key, got, st, kind, v, dt, 'pair')
        return
    r = judge(rep, key, got, st, kind, v, dt, 'pair')
    if r is None:
        return
    for c in case[5]:
        gc, xc = operand(c, dt)
        for op2 in OPS:
            for side in 'lr':
                x, y = (r, xc) if side == 'l' else (xc, r)
                gx, gy = (got, gc) if side == 'l' else (gc, got)
                st, kind, v = expect(op2, x, y)
                if st == 'any':
                    rep.skip('meaning not specified')
                    continue
                k2 = ('(%s %s %s) %s %s' % (a, op, b, op2, c) if side == 'l' else
                      '%s %s (%s %s %s)' % (c, op2, a, op, b))
                rep.step()
                rep.trace()
                judge(rep, 'nest %s %s' % (t, k2), call(OPS[op2], gx, gy), st, kind, v, dt,
                      'nested')
