"""Reference relations between a continuous model and its sampled version."""
import numpy as np

from .ref import Tf, Ss

TUSTIN = ('bilinear', 'tustin')
FORWARD = ('forward difference', 'forward euler', 'forward rectangular', '>>')
BACKWARD = ('backward difference', 'backward euler', 'backward rectangular', '<<')
METHODS = TUSTIN + ('zoh', 'foh') + FORWARD + BACKWARD


def s_of_z(z, method, dt, prewarp=0., q=None):
    """The s that the method's relation associates with z."""
    if method in TUSTIN:
        k = 2/dt if prewarp == 0. else 2*np.pi*prewarp/np.tan(np.pi*prewarp*dt)
        return k*(z-1)/(z+1)
    if method in FORWARD:
        return (z-1)/dt
    if method in BACKWARD:
        return (z-1)/(dt*z)
    (q11, q12), (q21, q22) = q
    return 1/(q22 + q21*q12/(z-q11))


def realize(num, den):
    """Companion realization of one proper entry."""
    num, den = np.trim_zeros(np.array(num, float), 'f'), np.trim_zeros(np.array(den, float), 'f')
    n = len(den) - 1
    num = np.concatenate([np.zeros(n+1-len(num)), num])/den[0]
    den = den/den[0]
    a = np.zeros((n, n))
    if n:
        a[0] = -den[1:]
        a[1:, :-1] = np.eye(n-1)
    b = np.zeros((n, 1))
    b[:1] = 1.
    c = (num[1:] - num[0]*den[1:]).reshape(1, n)
    return a, b, c, np.array([[num[0]]])


def gammas(a, dt):
    """exp(A dt), sum A^k dt^(k+1)/(k+1)!, sum A^k dt^(k+1)/(k+2)! by scaled Taylor series."""
    n = a.shape[0]
    h, k = dt, 0
    while np.abs(a).sum()*h > 0.25:
        h, k = h/2, k+1
    p = np.eye(n)
    t0, t1, t2 = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
    for i in range(24):
        # p = (A h)^i / i!
        t0 = t0 + p
        t1 = t1 + p*h/(i+1)
        t2 = t2 + p*h/((i+1)*(i+2))
        p = p @ a*(h/(i+1))
    for _ in range(k):
        # doubling: g1 integrates exp(A t), g2 exp(A (h-t)) t/h over one step
        t0, t1, t2 = t0 @ t0, t1 + t0 @ t1, (t0 @ t2 + t1 + t2)/2
    return t0, t1, t2


def held_values(a, b, c, d, dt, method, pts):
    """Values in z of the zoh/foh equivalent of a continuous state model."""
    n = a.shape[0]
    v = np.empty((len(pts),) + d.shape, complex)
    f, g1, g2 = gammas(a, dt)
    for k, z in enumerate(pts):
        if not n:
            v[k] = d
        elif method == 'zoh':
            v[k] = c @ np.linalg.solve(z*np.eye(n)-f, (g1 @ b).astype(complex)) + d
        else:
            v[k] = c @ np.linalg.solve(z*np.eye(n)-f, ((g1-g2) @ b + z*(g2 @ b))) + d
    return v


def sampled_values(spec, method, dt, pts, prewarp=0., q=None):
    """Values of the discretized specification on the points z."""
    if method in ('zoh', 'foh'):
        if isinstance(spec, Ss):
            return held_values(spec.a, spec.b, spec.c, spec.d, dt, method, pts)
        p, m = spec.shape
        v = np.empty((len(pts), p, m), complex)
        for i in range(p):
            for j in range(m):
                v[:, i, j] = held_values(*realize(*spec.e[i][j]), dt, method, pts)[:, 0, 0]
        return v
    return spec.values(s_of_z(pts, method, dt, prewarp, q))
