"""Linear algebra helpers against their definitions."""
import itertools

import numpy as np

from ..core import call, Err
from ..ref import frank, model_state
from .. import alpha
from harold import (haroldsvd, haroldker, e_i, matrix_slice, pair_complex_numbers,
                    concatenate_state_matrices, Transfer)

D3 = (-1, 0, 1)
VALS = [0, 1, -2, 1+1j, 1-1j, 1+2j, 1-2j, -1+3j, -1-3j, 2j, -2j]
BOUNDS = {
    'quick': 'svd/null space: every real matrix with entries in {-1,0,1} of shapes 1x1..3x3, '
             'every 2x2 over {0,1,i,-i,1+i}, rank-structured 3x3, 3x4, 4x3 products, list/integer '
             'forms, both sides; unit vectors: widths 1-5 x every index, every index pair, every '
             'slice with bounds -5..5 and steps -2..2; partitions: every shape up to 4x4 x every '
             'corner size x 4 corners; pairing: every multiset of up to 6 of 11 values x 4 option '
             'settings x 3 orders, every multiset of up to 2 perturbed pairs in every order',
    'thorough': 'as quick with multisets of up to 7 values'}
CHUNK = 2


def cases(tier):
    out = [['mat', [p, m]] for p in (1, 2, 3) for m in (1, 2, 3) if p*m <= 6]
    out += [['mat3', list(r)] for r in itertools.product(D3, repeat=3)]
    out += [['cplx', i] for i in range(5)] + [['rank'], ['svdforms'], ['slice'], ['cat'],
                                              ['refuse']]
    out += [['e_i', w] for w in range(1, 6)]
    n = 7 if tier == 'thorough' else 6
    for k in range(n+1):
        if k < 3:
            out.append(['pair', k, None])
        else:
            out += [['pair', k, i] for i in range(len(VALS))]
    out += [['noise', i] for i in range(len(NOISE))]
    return out


def rank(a):
    """Exact rank, also of Gaussian-integer matrices."""
    a = np.atleast_2d(a)
    if np.iscomplexobj(a):
        return frank(np.block([[a.real, -a.imag], [a.imag, a.real]]).tolist())//2
    return frank(a.tolist())


def check_svd(rep, key, arg):
    rep.step()
    a = np.atleast_2d(np.array(arg))
    p, m = a.shape
    r0 = rank(a)
    for also in (False, True):
        r = call(haroldsvd, arg, also)
        if isinstance(r, Err):
            return rep.violation(key, 'svd refused', repr(r))
        if len(r) != 3+also:
            return rep.violation(key, 'svd form', '%d results' % len(r))
        u, s, v = r[:3]
        if also and r[3] != r0:
            return rep.violation(key, 'rank', 'rank %s, exact %d' % (r[3], r0))
        if u.shape != (p, p) or s.shape != (p, m) or v.shape != (m, m):
            return rep.violation(key, 'svd shape', 'shapes')
        sv = np.diag(s)
        off = s.copy()
        off[np.arange(len(sv)), np.arange(len(sv))] = 0
        if off.any() or np.any(sv < 0) or np.any(np.diff(sv) > 1e-12):
            return rep.violation(key, 'svd values', 'not singular values')
        if not (rep.close('svd', u@s@v, a, 1e-10) and
                rep.close('u', u.conj().T@u, np.eye(p), 1e-10) and
                rep.close('v', v.conj().T@v, np.eye(m), 1e-10)):
            return rep.violation(key, 'svd', 'factors do not reproduce the matrix')
    r = call(haroldsvd, arg, also_rank=True, rank_tol=1e3)
    if isinstance(r, Err) or r[3] != 0:
        return rep.violation(key, 'rank tolerance', repr(r))
    rep.outcome('svd rank %d' % r0)


def check_ker(rep, key, arg):
    a = np.atleast_2d(np.array(arg))
    r0 = rank(a)
    for side in ('right', 'left', None):
        rep.step()
        r = call(haroldker, arg) if side is None else call(haroldker, arg, side)
        if isinstance(r, Err):
            return rep.violation(key, 'null refused', repr(r))
        b = a.conj().T if side == 'left' else a
        n = b.shape[1]
        dim = n-r0
        if r.shape != (n, max(dim, 1)):
            return rep.violation(key, 'null shape', '%s %s, null space has dimension %d' % (
                side, r.shape, dim))
        if dim == 0:
            if r.any():
                return rep.violation(key, 'null trivial', 'not zero')
            continue
        if not rep.close('null', b@r, np.zeros((len(b), dim)), 1e-9):
            return rep.violation(key, 'null', 'not in the null space (%s)' % side)
        if not rep.close('basis', r.conj().T@r, np.eye(dim), 1e-9):
            return rep.violation(key, 'basis', 'not orthonormal')
    rep.outcome('null space %d' % (a.shape[1]-r0))


def both(rep, key, a, forms=('array',)):
    rep.state(key)
    rep.trace()
    for f in forms:
        arg = a if f == 'array' else a.tolist() if f == 'list' else np.asfortranarray(a)
        check_svd(rep, key + ' ' + f, arg)
        check_ker(rep, key + ' ' + f, arg)


def run(case, rep):
    kind = case[0]
    if kind == 'mat':
        p, m = case[1]
        for v in itertools.product(D3, repeat=p*m):
            both(rep, 'mat %dx%d %s' % (p, m, v), np.reshape(v, (p, m)), ('array', 'list'))
    elif kind == 'mat3':
        for v in itertools.product(D3, repeat=6):
            both(rep, 'mat3 %s %s' % (case[1], v), np.reshape(list(case[1])+list(v), (3, 3)))
    elif kind == 'cplx':
        al = (0, 1, 1j, -1j, 1+1j)
        for v in itertools.product(al, repeat=3):
            both(rep, 'cplx %s %s' % (al[case[1]], v), np.reshape([al[case[1]]]+list(v), (2, 2)))
            both(rep, 'cplx row %s %s' % (al[case[1]], v), np.reshape([al[case[1]]]+list(v), (1, 4)))
            both(rep, 'cplx col %s %s' % (al[case[1]], v), np.reshape([al[case[1]]]+list(v), (4, 1)))
    elif kind == 'rank':
        for p, m in ((3, 3), (3, 4), (4, 3), (4, 4), (2, 5), (5, 2)):
            for r in range(min(p, m)+1):
                for s in (1, 2, 5):
                    u = np.array([[(i*s+3*j+1) % 7-3 for j in range(r)] for i in range(p)])
                    v = np.array([[(2*i+j*s) % 5-2 for j in range(m)] for i in range(r)])
                    a = (u.reshape(p, r)@v.reshape(r, m)).astype(float)
                    both(rep, 'rank %dx%d %d %d' % (p, m, r, s), a, ('array', 'list', 'fortran'))
    elif kind == 'svdforms':
        for nm, x in (('scalar', 3), ('zero', 0), ('row', [1, 2, 3]), ('float', 2.5),
                      ('nested', [[1, 2], [2, 4]]), ('tuple', ((1, 2), (3, 4))), ('neg', [[-1]])):
            rep.state(nm)
            rep.trace()
            check_svd(rep, 'form ' + nm, x)
            check_ker(rep, 'form ' + nm, x)
    elif kind == 'e_i':
        w = case[1]
        idx = list(range(-w, w)) + [list(x) for x in itertools.product(range(w), repeat=2)]
        idx += [[0]*3, list(range(w))[::-1], np.arange(w) % 2 == 0, np.array([w-1])]
        idx += [slice(a, b, c) for a in [None]+list(range(-5, 6)) for b in [None]+list(range(-5, 6))
                for c in (None, 1, 2, -1, -2)]
        for i in idx:
            key = 'e_i %d %s' % (w, i)
            rep.state(key)
            rep.trace()
            cols = np.atleast_1d(np.arange(w)[i])
            ref = np.zeros((w, len(cols)))
            for k, x in enumerate(cols):
                ref[x, k] = 1
            for out in (None, 'c', 'r'):
                rep.step()
                r = call(e_i, w, i) if out is None else call(e_i, w, i, out)
                want = ref.T if out == 'r' else ref
                if isinstance(r, Err) or r.shape != want.shape or not np.array_equal(r, want):
                    return rep.violation(key, 'unit vectors', repr(r))
        if not np.array_equal(call(e_i, w), np.eye(w)[:, [0]]):
            return rep.violation('e_i %d' % w, 'unit vectors', 'default')
        rep.outcome('unit vectors')
        for bad in (w, -w-1, [0, w]):
            rep.step()
            if not isinstance(call(e_i, w, bad), Err):
                rep.violation('e_i %d %s' % (w, bad), 'not refused', 'index out of range')
    elif kind == 'slice':
        for x, y in itertools.product(range(1, 5), repeat=2):
            m = np.arange(1., x*y+1).reshape(x, y)
            for z, w, c in itertools.product(range(x+1), range(y+1), ('nw', 'ne', 'sw', 'se', None)):
                key = 'slice %dx%d %d,%d %s' % (x, y, z, w, c)
                rep.state(key)
                rep.step()
                rep.trace()
                r = call(matrix_slice, m, (z, w)) if c is None else call(matrix_slice, m, (z, w), c)
                p = x-z if c and c[0] == 's' else z
                q = y-w if c and c[1] == 'e' else w
                ref = m[:p, :q], m[:p, q:], m[p:, :q], m[p:, q:]
                if isinstance(r, Err) or len(r) != 4 or any(
                        a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(r, ref)):
                    return rep.violation(key, 'partition', repr(r))
                rep.outcome('partition')
    elif kind == 'cat':
        for k, s in alpha.STATES.items():
            g = s.build()
            before = model_state(g)
            rep.state(k)
            rep.step()
            rep.trace()
            r = call(concatenate_state_matrices, g)
            ref = s.d if s.gain else np.vstack((np.hstack((s.a, s.b)), np.hstack((s.c, s.d))))
            if isinstance(r, Err) or r.shape != ref.shape or not np.array_equal(r, ref) \
                    or model_state(g) != before:
                return rep.violation('cat ' + k, 'concatenation', repr(r))
            rep.outcome('concatenation')
    elif kind == 'pair':
        k, first = case[1:]
        for ms in itertools.combinations_with_replacement(range(len(VALS)), k):
            if first is not None and ms[0] != first:
                continue
            vals = [VALS[i] for i in ms]
            check_pair(rep, 'pair %s' % vals, vals)
    elif kind == 'noise':
        ps = NOISE[case[1]]
        vals = []
        for i, z in enumerate(ps):
            vals += [z + NEAR*i, z.conjugate() + NEAR*(2*i+1)*(-1)**i]
        for o in set(itertools.permutations(range(len(vals)))):
            check_pair(rep, 'noise %s %s' % (ps, o), [vals[i] for i in o], noisy=True)
    else:
        for nm, x in (('text', ['a', 1]), ('none', [None, 1j]), ('odd', [1j, 1, 2]),
                      ('real parts', [1+1j, 2-1j]), ('imag parts', [1+1j, 1-2j])):
            refuse(rep, 'pair ' + nm, pair_complex_numbers, x)
        for c in ('', 'n', 'NW', 'xx', 'en', 3):
            refuse(rep, 'slice %r' % c, matrix_slice, np.eye(3), (1, 1), c)
        for s in ('', 'Right', 'l', 'both', None):
            refuse(rep, 'ker %r' % s, haroldker, np.eye(2), s)
        for x in (3, np.eye(2), Transfer(1), Transfer([1], [1, 1]), None):
            refuse(rep, 'cat %s' % type(x).__name__, concatenate_state_matrices, x)
        for x in ([[1, 2], [3]], 'abc'):
            refuse(rep, 'svd %r' % (x,), haroldsvd, x)
            refuse(rep, 'ker %r' % (x,), haroldker, x)


NEAR = 3e-11
NOISE = [(1+1j,), (1+2j, 1+2j), (1+1j, 1+2j), (1+1j, -1+2j), (1+2j, 1+1j), (2j, 2j), (-1+3j, 1+1j),
         (1+1j, 1+1j, 1+1j), (1+1j, 1+2j, 1+3j), (1+3j, 1+1j, 1+1j), (2j, 1+1j, 1+2j)]


def check_pair(rep, key, vals, noisy=False):
    rep.state(key)
    rep.trace()
    cp = [z for z in vals if complex(z).imag]
    rl = sorted(complex(z).real for z in vals if not complex(z).imag)
    ok = noisy or all(cp.count(z) == cp.count(z.conjugate()) for z in cp)
    orders = [vals] if noisy else [vals, vals[::-1], vals[::2]+vals[1::2]]
    for o in orders:
        for pos, first in itertools.product((None, False, True), (None, False)):
            rep.step()
            kw = {}
            if pos is not None:
                kw['positives_first'] = pos
            if first is not None:
                kw['reals_first'] = first
            r = call(pair_complex_numbers, o, **kw)
            if not ok:
                if not isinstance(r, Err) or r.name != 'ValueError':
                    return rep.violation(key, 'not refused', '%s: %r' % (o, r))
                rep.outcome('refused')
                continue
            if isinstance(r, Err):
                return rep.violation(key, 'refused', '%s: %r' % (o, r))
            r = np.asarray(r)
            if r.shape != (len(o),):
                return rep.violation(key, 'shape', repr(r))
            nr = len(rl)
            a, b = (r[:nr], r[nr:]) if first is None else (r[len(cp):], r[:len(cp)])
            if np.any(np.imag(a)) or not np.allclose(np.real(a), rl, 0, 1e-12):
                return rep.violation(key, 'reals', '%s gives %s' % (o, r))
            if not np.array_equal(b[::2], np.conj(b[1::2])):
                return rep.violation(key, 'pairs', '%s gives %s' % (o, r))
            lead = np.imag(b[::2])
            if np.any(lead <= 0 if pos else lead >= 0):
                return rep.violation(key, 'order', '%s gives %s' % (o, r))
            if not same_multiset(b, cp):
                return rep.violation(key, 'values', '%s gives %s' % (o, r))
            rep.outcome('paired %d+%d' % (nr, len(cp)))


def same_multiset(b, c, tol=1e-8):
    c = list(c)
    for z in b:
        i = min(range(len(c)), key=lambda k: abs(c[k]-z), default=None)
        if i is None or abs(c[i]-z) > tol:
            return False
        c.pop(i)
    return not c


def refuse(rep, key, f, *a):
    rep.step()
    rep.state(key)
    r = call(f, *a)
    if not isinstance(r, Err) or r.name not in ('ValueError', 'TypeError', 'LinAlgError',
                                                'UFuncTypeError', '_UFuncNoLoopError'):
        return rep.violation('refuse ' + key, 'not refused', repr(r))
    rep.outcome('refused')
