"""Polynomial helpers against exact rational polynomial algebra."""
import itertools

import numpy as np

from ..core import call, Err
from ..ref import F, padd, pmul, pdivmod, pgcd, plcm, trim, fl, charpoly
from harold import (haroldpolyadd, haroldpolymul, haroldpolydiv, haroldpoly, haroldcompanion,
                    haroldgcd, haroldlcm)

FACT = {'a': [1, 1], 'b': [1, 2], 'z': [1, 0], 'u': [1, -1], 'c': [1, 2, 2], 'i': [1, 0, 4]}
ROOTS = [0, 1, -2, 0.5, 1j, -1j, -1+2j, -1-2j]
BOUNDS = {
    'quick': 'sum, product, division: every pair of polynomials with coefficients in {-2..2} up to '
             'degree 2 and {-1,0,1} up to degree 3 (leading zeros included), triples over '
             '{-1,0,1} up to degree 1, several layouts; companion and roots: every polynomial '
             '{-2..2} up to degree 3, every multiset of up to 4 roots of 8; gcd: every pair with '
             'coefficients {-1,0,1} up to degree 3 and {-2..2} up to degree 2, gcd and lcm: pairs '
             'of factor products (6 factors, up to 3 each, multiplicity up to 2, scaled) and '
             'triples of products of up to 2',
    'thorough': 'as quick with coefficients {-2..2} up to degree 3 for pairs and factor products '
                'up to 4'}
ASSUMPTIONS = ['gcd and cofactor relations hold up to a constant factor; the least common multiple '
               'is monic and cofactors refer to the monic versions of the inputs',
               'gcd and lcm with the zero polynomial are not judged']
CHUNK = 2


def polys(n, lo, hi):
    return [list(c) for k in range(1, n+2) for c in itertools.product(range(lo, hi+1), repeat=k)]


SMALL = {'quick': lambda: polys(2, -2, 2) + polys(3, -1, 1),
         'thorough': lambda: polys(3, -2, 2)}


def products(n):
    k = sorted(FACT)
    return [list(c) for q in range(1, n+1) for c in itertools.combinations_with_replacement(k, q)
            if all(c.count(x) < 3 for x in c)]


def cases(tier):
    out = []
    ps = SMALL[tier]()
    n = len(ps)
    step = max(1, 4000//n)
    for i in range(0, n, step):
        out.append(['arith', tier, i, min(n, i+step)])
        out.append(['gcdpairs', tier, i, min(n, i+step)])
    k = 3 if tier == 'quick' else 4
    for f in products(k):
        out.append(['factors', f, k])
    for f in products(2):
        out.append(['triples', f])
    t = polys(1, -1, 1)
    for p in t:
        out.append(['addtriples', p])
    out += [['companion', None], ['layouts', None]]
    for k in range(0, 5):
        out.append(['roots', k])
    return out


def same(rep, what, got, ref, tol=1e-9):
    """Same polynomial: coefficients after dropping leading zeros."""
    g = np.asarray(got)
    if g.ndim != 1:
        return False
    if np.iscomplexobj(g):
        if g.size and np.abs(g.imag).max() > 1e-9*(1+np.abs(g).max()):
            return False
        g = g.real
    r = fl(ref) if len(ref) else np.zeros(0)
    n = max(g.size, r.size)
    if n == 0:
        return True
    return rep.close(what, np.r_[np.zeros(n-g.size), g], np.r_[np.zeros(n-r.size), r], tol,
                     scale=1+np.abs(r).max() if r.size else 1.)


def one(rep, key, f, judge):
    rep.trace()
    rep.step()
    rep.state(key)
    r = call(f)
    if isinstance(r, Err):
        return rep.violation(key, 'refused', repr(r))
    m = judge(r)
    if m:
        return rep.violation(key, m.split(':')[0], '%s, got %s' % (m, str(r)[:120]))
    rep.outcome(key.split()[0])


def deg(p):
    return len(trim(list(p))) - 1


def arith(rep, p, q, forms=None):
    P, Q = F(p), F(q)
    tag = '%s,%s' % (p, q)
    a, b = np.array(p, float), np.array(q, float)
    one(rep, 'add ' + tag, lambda: haroldpolyadd(a.copy(), b.copy()),
        lambda r: None if same(rep, 'add', r, padd(P, Q)) else 'sum: wrong')
    one(rep, 'addn ' + tag, lambda: haroldpolyadd(a.copy(), b.copy(), trim_zeros=False),
        lambda r: None if same(rep, 'add', r, padd(P, Q)) else 'sum: wrong')
    one(rep, 'mul ' + tag, lambda: haroldpolymul(a.copy(), b.copy()),
        lambda r: None if same(rep, 'mul', r, pmul(P, Q)) else 'product: wrong')
    one(rep, 'muln ' + tag, lambda: haroldpolymul(a.copy(), b.copy(), trim_zeros=False),
        lambda r: None if same(rep, 'mul', r, pmul(P, Q)) else 'product: wrong')
    if any(q):
        qq, rr = pdivmod(P, Q)
        one(rep, 'div ' + tag, lambda: haroldpolydiv(a.copy(), b.copy()),
            lambda r: None if len(r) == 2 and same(rep, 'quo', r[0], qq, 1e-8) and
            same(rep, 'rem', r[1], rr, 1e-8) else 'division: wrong')
    else:
        rep.step()
        r = call(haroldpolydiv, a, b)
        if not isinstance(r, Err):
            rep.violation('div ' + tag, 'accepted', 'division by zero returned %s' % (r,))


def gcd_ok(rep, r, polys_):
    g = []
    for p in polys_:
        g = pgcd(g, F(p)) if g else list(F(p))
    g = [x for x in trim(g)]
    g = [x/g[0] for x in g]
    r = np.asarray(r, float)
    if r.ndim != 1 or not r.size or r[0] == 0:
        return False
    return same(rep, 'gcd', r/r[0], g, 1e-5)


def lcm_ok(rep, r, ps, mult):
    l = plcm([F(p) for p in ps])
    l = [x/l[0] for x in l]
    lc = np.asarray(r[0] if mult else r, float)
    if not same(rep, 'lcm', lc, l, 1e-5):
        return 'lcm: is not %s' % ([float(x) for x in l],)
    if mult:
        if len(r[1]) != len(ps):
            return 'lcm: wrong number of cofactors'
        for p, m in zip(ps, r[1]):
            p = np.array(trim(p), float)
            v = np.convolve(p, np.atleast_1d(m))
            if p.size == 1:
                ok = same(rep, 'cofactor', m, l, 1e-5) or same(rep, 'cofactor', v, l, 1e-5)
            else:
                ok = same(rep, 'cofactor', v/p[0], l, 1e-5) or same(rep, 'cofactor', v, l, 1e-5)
            if not ok:
                return 'cofactor: of %s is %s' % (p, m)
    return None


def prod(f, g=1.):
    p = [g]
    for x in f:
        p = np.convolve(p, FACT[x])
    return [float(v) for v in p]


def run(case, rep):
    kind = case[0]
    if kind in ('arith', 'gcdpairs'):
        ps = SMALL[case[1]]()
        for p in ps[case[2]:case[3]]:
            for q in ps:
                if kind == 'arith':
                    arith(rep, p, q)
                elif any(p) and any(q):
                    one(rep, 'gcd %s,%s' % (p, q),
                        lambda: haroldgcd(np.array(p, float), np.array(q, float)),
                        lambda r: None if gcd_ok(rep, r, [p, q]) else 'gcd: wrong')
    elif kind == 'factors':
        f, k = case[1:]
        for g in [[]] + products(k):
            p, q = prod(f, 2.), prod(g)
            lz = [0., 0.] + q
            tag = '%s|%s' % (''.join(f), ''.join(g))
            one(rep, 'gcd ' + tag, lambda: haroldgcd(np.array(p), np.array(q)),
                lambda r: None if gcd_ok(rep, r, [p, q]) else 'gcd: wrong')
            one(rep, 'lcm ' + tag, lambda: haroldlcm(np.array(p), np.array(q)),
                lambda r: lcm_ok(rep, r, [p, q], True))
            one(rep, 'lcmnm ' + tag, lambda: haroldlcm(p, q, compute_multipliers=False),
                lambda r: lcm_ok(rep, r, [p, q], False))
            if len(f) + len(g) <= 4:
                one(rep, 'gcdlz ' + tag, lambda: haroldgcd(lz, p),
                    lambda r: None if gcd_ok(rep, r, [p, q]) else 'gcd: wrong')
                one(rep, 'lcmlz ' + tag, lambda: haroldlcm(lz, p),
                    lambda r: lcm_ok(rep, r, [q, p], True))
    elif kind == 'triples':
        f = case[1]
        for g in [[]] + products(2):
            for h in [[]] + products(2):
                ps = [prod(f), prod(g), prod(h)]
                tag = '%s|%s|%s' % (''.join(f), ''.join(g), ''.join(h))
                one(rep, 'gcd3 ' + tag, lambda: haroldgcd(*ps),
                    lambda r: None if gcd_ok(rep, r, ps) else 'gcd: wrong')
                one(rep, 'lcm3 ' + tag, lambda: haroldlcm(*ps), lambda r: lcm_ok(rep, r, ps, True))
    elif kind == 'addtriples':
        t = polys(1, -1, 1)
        p = case[1]
        for q in t:
            for s in t:
                ar = [np.array(x, float) for x in (p, q, s)]
                ex = [F(x) for x in (p, q, s)]
                tag = '%s,%s,%s' % (p, q, s)
                one(rep, 'add3 ' + tag, lambda: haroldpolyadd(*ar),
                    lambda r: None if same(rep, 'add', r, padd(padd(ex[0], ex[1]), ex[2]))
                    else 'sum: wrong')
                one(rep, 'mul3 ' + tag, lambda: haroldpolymul(*ar),
                    lambda r: None if same(rep, 'mul', r, pmul(pmul(ex[0], ex[1]), ex[2]))
                    else 'product: wrong')
    elif kind == 'companion':
        for p in polys(3, -2, 2):
            if not any(p):
                continue
            q = trim(p)

            def ok(r):
                r = np.asarray(r)
                if len(q) == 1:
                    return None if r.size == 0 else 'companion: not empty'
                if r.shape != (len(q)-1,)*2:
                    return 'companion: shape'
                c = charpoly(r.tolist())
                n = r.shape[0]
                form = np.array_equal(r[:-1, 1:], np.eye(n-1)) and not np.any(r[:-1, 0])
                ref = [x/F(q)[0] for x in F(q)]
                return None if same(rep, 'companion', [float(x) for x in c], ref) and form \
                    else 'companion: wrong'
            one(rep, 'companion %s' % p, lambda: haroldcompanion(list(p)), ok)
            one(rep, 'companion array %s' % p, lambda: haroldcompanion(np.array(p)), ok)
            one(rep, 'companion row %s' % p, lambda: haroldcompanion(np.array([p], float)), ok)
    elif kind == 'roots':
        for c in itertools.combinations_with_replacement(ROOTS, case[1]):
            ref = np.array([1.+0j])
            for x in c:
                ref = np.convolve(ref, [1, -x])
            for form, arg in (('list', list(c)), ('tuple', tuple(c)), ('array', np.array(c))):
                one(rep, 'roots %s %s' % (form, c), lambda: haroldpoly(arg),
                    lambda r: None if np.shape(r) == ref.shape and
                    rep.close('roots', r, ref, 1e-9, scale=1+np.abs(ref).max()) else
                    'roots: wrong')
    else:
        base = [[2, 3, 4, 6], [0, 1, 3, 6], [1, 0, -1], [0, 0, 3], [5], [1, 2], [2, 4]]
        conv = {'list': list, 'int': lambda x: np.array(x), 'row': lambda x: np.array([x], float),
                'view': lambda x: np.repeat(np.array(x, float), 2)[::2],
                'float': lambda x: np.array(x, float)}
        for p in base:
            for q in base:
                for n1, f1 in conv.items():
                    for n2, f2 in conv.items():
                        tag = '%s(%s),%s(%s)' % (p, n1, q, n2)
                        P, Q = F(p), F(q)
                        if 'row' not in (n1, n2):
                            one(rep, 'add ' + tag, lambda: haroldpolyadd(f1(p), f2(q)),
                                lambda r: None if same(rep, 'add', r, padd(P, Q)) else
                                'sum: wrong')
                            qq, rr = pdivmod(P, Q)
                            one(rep, 'div ' + tag, lambda: haroldpolydiv(f1(p), f2(q)),
                                lambda r: None if same(rep, 'quo', r[0], qq, 1e-8) and
                                same(rep, 'rem', r[1], rr, 1e-8) else 'division: wrong')
                        one(rep, 'mul ' + tag, lambda: haroldpolymul(f1(p), f2(q)),
                            lambda r: None if same(rep, 'mul', r, pmul(P, Q)) else
                            'product: wrong')
                        one(rep, 'gcd ' + tag, lambda: haroldgcd(f1(p), f2(q)),
                            lambda r: None if gcd_ok(rep, r, [p, q]) else 'gcd: wrong')
                        one(rep, 'lcm ' + tag, lambda: haroldlcm(f1(p), f2(q)),
                            lambda r: lcm_ok(rep, r, [p, q], True))
