"""Reference semantics: a system is the matrix of values it takes on fixed complex points."""
from fractions import Fraction

import numpy as np

from . import env
import harold
from harold import Transfer, State

# 15 points, none real, spread over radii 0.4 .. 4, no point equals the conjugate of another.
PTS = np.array([r*np.exp(1j*t) for r, t in
                [(0.43, 0.7), (0.62, 2.1), (0.85, 1.3), (1.13, 0.55), (1.31, 1.75),
                 (1.47, 2.6), (1.72, 1.05), (1.93, 2.25), (2.2, 0.35), (2.45, 1.5),
                 (2.71, 2.85), (3.1, 0.9), (3.4, 1.95), (3.7, 2.45), (4.1, 0.15)]])


# ---------------------------------------------------------------- specifications
class Tf:
    """Transfer matrix given by a matrix of (num, den) coefficient lists."""
    kind = 'T'

    def __init__(self, entries, dt=None):
        self.e = entries
        self.dt = dt
        self.shape = (len(entries), len(entries[0]))
        self.gain = all(len(trim(d)) == 1 and len(trim(n)) <= 1 for r in entries for n, d in r)

    def values(self, pts=PTS):
        p, m = self.shape
        v = np.empty((len(pts), p, m), complex)
        for i in range(p):
            for j in range(m):
                n, d = self.e[i][j]
                v[:, i, j] = np.polyval(n, pts)/np.polyval(d, pts)
        return v

    def inf(self):
        return np.array([[lim_inf(n, d) for n, d in r] for r in self.e], complex)

    def build(self, dt='own'):
        dt = self.dt if dt == 'own' else dt
        if self.shape == (1, 1):
            n, d = self.e[0][0]
            return Transfer(list(n), list(d), dt=dt)
        return Transfer([[list(n) for n, d in r] for r in self.e],
                        [[list(d) for n, d in r] for r in self.e], dt=dt)

    def with_dt(self, dt):
        return Tf(self.e, dt)


class Ss:
    kind = 'S'

    def __init__(self, a, b, c, d, dt=None):
        self.d = np.atleast_2d(np.array(d, float))
        self.shape = self.d.shape
        n = 0 if a is None else np.atleast_2d(np.array(a, float)).shape[0]
        self.n = n
        self.gain = n == 0
        p, m = self.shape
        self.a = np.array(a, float).reshape(n, n) if n else np.zeros((0, 0))
        self.b = np.array(b, float).reshape(n, m) if n else np.zeros((0, m))
        self.c = np.array(c, float).reshape(p, n) if n else np.zeros((p, 0))
        self.dt = dt

    def values(self, pts=PTS):
        return ss_values(self.a, self.b, self.c, self.d, pts)

    def inf(self):
        return self.d.astype(complex)

    def build(self, dt='own'):
        dt = self.dt if dt == 'own' else dt
        if self.gain:
            return State(self.d.copy(), dt=dt)
        return State(self.a.copy(), self.b.copy(), self.c.copy(), self.d.copy(), dt=dt)

    def with_dt(self, dt):
        if self.gain:
            return Ss(None, None, None, self.d, dt)
        return Ss(self.a, self.b, self.c, self.d, dt)


class Num:
    """A scalar or an array operand."""
    kind = 'N'
    dt = None
    gain = True

    def __init__(self, x):
        self.x = x
        a = np.atleast_2d(np.asarray(x))
        self.v = a
        self.shape = a.shape
        self.scalar = np.ndim(x) == 0

    def values(self, pts=PTS):
        return np.broadcast_to(self.v.astype(complex), (len(pts),) + self.shape).copy()

    def inf(self):
        return self.v.astype(complex)

    def build(self, dt=None):
        return self.x.copy() if isinstance(self.x, np.ndarray) else self.x


def lim_inf(n, d):
    n, d = trim(n), trim(d)
    if not n or len(n) < len(d):
        return 0.
    return n[0]/d[0] if len(n) == len(d) else np.inf


def obj_inf(g):
    if isinstance(g, State):
        return np.asarray(g.d).astype(complex)
    num, den = g.num, g.den
    if not isinstance(num, list):
        num, den = [[num]], [[den]]
    # floating point leftovers of cancelled leading terms count as zero
    def lead(n, d):
        n, d = np.ravel(n).tolist(), np.ravel(d).tolist()
        m = max(map(abs, n + d))
        n = [0. if abs(x) < 1e-11*m else x for x in n]
        return lim_inf(n, d)
    return np.array([[lead(n, d) for n, d in zip(rn, rd)] for rn, rd in zip(num, den)], complex)


def ss_values(a, b, c, d, pts=PTS):
    n = a.shape[0]
    d = np.atleast_2d(d)
    v = np.empty((len(pts),) + d.shape, complex)
    for k, s in enumerate(pts):
        if n:
            v[k] = c @ np.linalg.solve(s*np.eye(n) - a, b.astype(complex)) + d
        else:
            v[k] = d
    return v


def obj_values(g, pts=PTS):
    """Values of a harold model from its public data."""
    if isinstance(g, State):
        a, b, c, d = (np.asarray(x) for x in (g.a, g.b, g.c, g.d))
        if a.size == 0:
            return ss_values(np.zeros((0, 0)), None, None, d, pts)
        if a.shape[0] != a.shape[1] or b.shape != (a.shape[0], d.shape[1]) \
                or c.shape != (d.shape[0], a.shape[0]):
            raise ValueError('inconsistent matrices %s %s %s %s'
                             % (a.shape, b.shape, c.shape, d.shape))
        return ss_values(a, b, c, d, pts)
    if not isinstance(g, Transfer):
        raise TypeError('not a model: %r' % type(g))
    num, den = g.num, g.den
    p, m = g.shape
    if (p, m) == (1, 1) and not isinstance(num, list):
        num, den = [[num]], [[den]]
    if len(num) != p or len(den) != p or any(len(r) != m for r in num) \
            or any(len(r) != m for r in den):
        raise ValueError('entries do not fit shape %s' % ((p, m),))
    v = np.empty((len(pts), p, m), complex)
    for i in range(p):
        for j in range(m):
            n, d = np.asarray(num[i][j]), np.asarray(den[i][j])
            if n.ndim != 2 or n.shape[0] != 1 or d.ndim != 2 or d.shape[0] != 1:
                raise ValueError('entry polynomial is not a row: %s / %s' % (n.shape, d.shape))
            v[:, i, j] = np.polyval(n[0], pts)/np.polyval(d[0], pts)
    return v


def model_state(g):
    """Canonical description of a model for state counting."""
    if isinstance(g, State):
        return ('S', tuple(g.shape), g.SamplingPeriod) + tuple(
            np.round(np.asarray(x, float), 6).tobytes() for x in (g.a, g.b, g.c, g.d))
    if isinstance(g, Transfer):
        f = lambda x: ([[np.round(np.asarray(y, float), 6).tobytes() for y in r] for r in x]
                       if isinstance(x, list) else np.round(np.asarray(x, float), 6).tobytes())
        return ('T', tuple(g.shape), g.SamplingPeriod, repr(f(g.num)), repr(f(g.den)))
    return ('N', repr(g))


def is_gain(g):
    """Whether a model is static, from its data."""
    if isinstance(g, State):
        return np.size(g.a) == 0
    ents = [x for q in (g.num, g.den)
            for x in ([y for r in q for y in r] if isinstance(q, list) else [q])]
    return all(np.size(x) == 1 for x in ents)


def good(ref, big=1e4):
    """Points at which the reference is not close to a pole."""
    return np.max(np.abs(ref).reshape(len(ref), -1), axis=1) < big


def same_values(rep, what, got, ref, tol=1e-6, big=1e4):
    """Compare two value stacks point by point with a per-point scale."""
    if got.shape != ref.shape:
        return False
    ok = good(ref, big)
    if not ok.any():
        return False
    g, r = got[ok], ref[ok]
    if not np.all(np.isfinite(g)):
        return False
    sc = (1. + np.abs(r).reshape(len(r), -1).max(axis=1))[:, None, None]
    return rep.close(what, g/sc, r/sc, tol, scale=1.)


# ---------------------------------------------------------------- exact polynomials
def trim(p):
    p = list(p)
    k = 0
    while k < len(p) and p[k] == 0:
        k += 1
    return p[k:]


def F(p):
    return [Fraction(x) for x in p]


def padd(a, b):
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    a = [Fraction(0)]*(n-len(a)) + a
    b = [Fraction(0)]*(n-len(b)) + b
    return trim([x+y for x, y in zip(a, b)])


def pneg(a):
    return [-x for x in a]


def pmul(a, b):
    if not a or not b:
        return []
    r = [Fraction(0)]*(len(a)+len(b)-1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i+j] += x*y
    return trim(r)


def pdivmod(a, b):
    a, b = trim(a), trim(b)
    q = []
    a = list(a)
    while len(a) >= len(b):
        f = Fraction(a[0])/b[0]
        q.append(f)
        for i in range(len(b)):
            a[i] -= f*b[i]
        a.pop(0)
    return (q or []), trim(a)


def pgcd(a, b):
    a, b = trim(a), trim(b)
    while b:
        a, b = b, pdivmod(a, b)[1]
    if not a:
        return a
    return [Fraction(x)/a[0] for x in a]


def plcm(ps):
    r = [Fraction(1)]
    for p in ps:
        p = trim(F(p))
        g = pgcd(r, p)
        r = pdivmod(pmul(r, p), g)[0]
        r = [x/r[0] for x in r]
    return r


def fl(p):
    return np.array([float(x) for x in p])


# ---------------------------------------------------------------- exact matrices
def fmat(m):
    return [[Fraction(x) for x in r] for r in m]


def frank(m):
    m = [list(map(Fraction, r)) for r in m]
    if not m or not m[0]:
        return 0
    rows, cols, r = len(m), len(m[0]), 0
    for c in range(cols):
        piv = next((i for i in range(r, rows) if m[i][c] != 0), None)
        if piv is None:
            continue
        m[r], m[piv] = m[piv], m[r]
        for i in range(r+1, rows):
            if m[i][c] != 0:
                f = m[i][c]/m[r][c]
                for j in range(c, cols):
                    m[i][j] -= f*m[r][j]
        r += 1
        if r == rows:
            break
    return r


def fmul(a, b):
    return [[sum((x*y for x, y in zip(r, c)), Fraction(0)) for c in zip(*b)] for r in a]


def fdet(m):
    m = [list(map(Fraction, r)) for r in m]
    n, det = len(m), Fraction(1)
    for c in range(n):
        piv = next((i for i in range(c, n) if m[i][c] != 0), None)
        if piv is None:
            return Fraction(0)
        if piv != c:
            m[c], m[piv] = m[piv], m[c]
            det = -det
        det *= m[c][c]
        for i in range(c+1, n):
            if m[i][c] != 0:
                f = m[i][c]/m[c][c]
                for j in range(c, n):
                    m[i][j] -= f*m[c][j]
    return det


def charpoly(a):
    """Exact characteristic polynomial (Faddeev-LeVerrier)."""
    n = len(a)
    a = fmat(a)
    c = [Fraction(1)]
    m = [[Fraction(0)]*n for _ in range(n)]
    for k in range(1, n+1):
        m = fmul(a, m) if k > 1 else m
        for i in range(n):
            m[i][i] += c[-1]
        am = fmul(a, m)
        c.append(-sum(am[i][i] for i in range(n))/k)
    return c


def roots_poly(roots):
    """Real polynomial coefficients from (float) roots."""
    r = np.atleast_1d(np.asarray(roots, complex))
    return np.poly(r) if r.size else np.array([1.+0j])


# ---------------------------------------------------------------- exact zeros of a pencil
def idet(m):
    """Determinant of an integer matrix (fraction free elimination)."""
    m = [list(r) for r in m]
    n, sign, prev = len(m), 1, 1
    for k in range(n-1):
        if m[k][k] == 0:
            piv = next((i for i in range(k+1, n) if m[i][k] != 0), None)
            if piv is None:
                return 0
            m[k], m[piv] = m[piv], m[k]
            sign = -sign
        for i in range(k+1, n):
            for j in range(k+1, n):
                m[i][j] = (m[i][j]*m[k][k] - m[i][k]*m[k][j])//prev
        prev = m[k][k]
    return sign*m[n-1][n-1] if n else 1


def interp(xs, ys):
    """Exact polynomial through the points."""
    r = []
    for i, xi in enumerate(xs):
        t = [Fraction(1)]
        den = Fraction(1)
        for j, xj in enumerate(xs):
            if j != i:
                t = pmul(t, [Fraction(1), Fraction(-xj)])
                den *= xi - xj
        r = padd(r, [x*ys[i]/den for x in t])
    return r


def zero_poly(a, b, c, d):
    """Monic polynomial whose roots are the finite values at which the system matrix
    [[s I - A, -B], [C, D]] drops below its normal rank: the gcd of its largest nonzero minors."""
    import itertools
    n, p, m = len(a), len(d), len(d[0])
    N = [list(x) for x in a]
    xs = list(range(-(n//2)-1, n-(n//2)))            # n+1 points

    def at(s):
        top = [[(s if i == j else 0) - N[i][j] for j in range(n)] + [-x for x in b[i]]
               for i in range(n)]
        return top + [list(c[i]) + list(d[i]) for i in range(p)]
    mats = [at(s) for s in xs]
    extra = at(17)
    if p == m:
        ds = [idet(x) for x in mats]
        if any(ds):
            q = interp(xs, ds)
            return [x/q[0] for x in q]
    r = max(frank(x) for x in mats + [extra])
    g = []
    for rows in itertools.combinations(range(n+p), r):
        for cols in itertools.combinations(range(n+m), r):
            ds = [idet([[x[i][j] for j in cols] for i in rows]) for x in mats]
            if not any(ds):
                continue
            g = pgcd(g, interp(xs, ds)) if g else interp(xs, ds)
            if len(g) == 1:
                return [Fraction(1)]
    return [x/g[0] for x in g]
