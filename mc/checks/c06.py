"""Constructors: all spellings of a model mean the same; ill-formed data is refused."""
import contextlib
import io
import itertools

import numpy as np

from ..core import call, Err
from ..ref import trim
from harold import Transfer, State

BOUNDS = {
    'quick': 'single-channel transfers: 14 numerators x 14 denominators x all spellings (up to 10 '
             'each) x 4 sampling periods; multi-channel: shapes up to 3x3 over 4 entry patterns x '
             'all spellings, every position of one noncausal or non-numeric entry, all pairs of '
             'numerator/denominator shapes up to 3x3, all ragged lists; state models: all '
             'dimensions 1..3 of the four matrices (6561) and all spellings of 12 models',
    'thorough': 'as quick with 30 numerators and denominators'}
ASSUMPTIONS = ['not judged: tuples, numpy integer scalars, NaN or infinite data, strings that '
               'parse as numbers, column vectors as polynomials']

NUMS = [[0], [1], [3], [-2.5], [1, 2], [2, 0], [-1, 4], [1, 0, 0], [1, 2, 3], [0.5, 0, -1],
        [1, 2, 3, 4], [-1, 0, 0, 5], [2, 2], [7, 0, 1, 0]]
DENS = [[1], [2], [-4], [0.5], [1, 3], [2, 1], [-1, 0], [1, 0, 0], [1, 2, 1], [3, 0, 4],
        [1, 6, 11, 6], [-2, 0, 0, 1], [1, 1], [1, 0, 0, 0]]
MORE = [[4, -1], [1, -1], [1, 1, 1], [0.25, 1], [-3], [10, 20, 30], [1, 0, 2], [5, 0, 0],
        [1, 2, 3, 4, 5], [-1, -1, -1], [2, 4, 6, 8, 10], [1, 0, 0, 0, 1], [6], [1, -2], [9, 9, 9],
        [0.1, 0.2]]
DTS = [None, 0.5, 2, np.float64(0.1)]


def spell1(c):
    """Spellings of one coefficient list (single-channel)."""
    s = {'list': list(c), 'arr': np.array(c, float), 'row': np.array([c], float),
         'lz': [0] + list(c), 'lzarr': np.array([0, 0] + list(c), float),
         'lzrow': np.array([[0] + list(c)], float), 'nest': [[list(c)]],
         'nestarr': [[np.array(c, float)]], 'cplx': np.array(c, complex)}
    if all(float(x).is_integer() for x in c):
        s['iarr'] = np.array(c, int)
        s['ilist'] = [int(x) for x in c]
    s['flist'] = [float(x) for x in c]
    if len(c) == 1:
        s['scalar'] = c[0]
        s['float'] = float(c[0])
        s['np'] = np.float64(c[0])
        s['0d'] = np.array(c[0], float)
    return s


def polys_equal(a, ref):
    a = np.asarray(a)
    if a.ndim != 2 or a.shape[0] != 1 or a.dtype.kind != 'f':
        return False
    x, y = trim(a[0].tolist()), trim([float(v) for v in ref])
    return x == y


def check_tf(rep, key, g, entries, dt, exact=True):
    """entries: matrix of (num, den); polynomials must be the written ones."""
    rep.trace()
    if isinstance(g, Err):
        rep.violation(key, 'refused', repr(g))
        return
    p, m = len(entries), len(entries[0])
    if tuple(g.shape) != (p, m) or (g.NumberOfOutputs, g.NumberOfInputs) != (p, m):
        rep.violation(key, 'shape', '%s instead of %s' % (g.shape, (p, m)))
        return
    if g.SamplingPeriod != dt:
        rep.violation(key, 'period', '%s instead of %s' % (g.SamplingPeriod, dt))
        return
    num, den = g.num, g.den
    if (p, m) == (1, 1):
        num, den = [[num]], [[den]]
    for i in range(p):
        for j in range(m):
            if not polys_equal(num[i][j], entries[i][j][0]) \
                    or not polys_equal(den[i][j], entries[i][j][1]):
                rep.violation(key, 'entries', 'entry %d,%d is %s/%s instead of %s/%s' % (
                    i, j, np.asarray(num[i][j]).tolist(), np.asarray(den[i][j]).tolist(),
                    entries[i][j][0], entries[i][j][1]))
                return
    nd = all(len(trim(e[1])) == 1 for r in entries for e in r)
    if nd != (np.size(g.poles) == 0):
        rep.violation(key, 'poles', 'a model of %s degree has %d poles'
                      % ('zero' if nd else 'positive', np.size(g.poles)))
        return
    rep.outcome('tf %dx%d' % (p, m))


def refuse(rep, key, f, *a, **k):
    rep.trace()
    rep.step()
    r = call(f, *a, **k)
    if not isinstance(r, Err):
        rep.violation(key, 'accepted', 'ill-formed data gives a %s of shape %s'
                      % (type(r).__name__, getattr(r, 'shape', None)))
    else:
        rep.outcome('refused ' + r.name)


def flat(x):
    """Nested argument data in a form that compares."""
    if isinstance(x, (list, tuple)):
        return [flat(y) for y in x]
    if isinstance(x, np.ndarray):
        return [x.shape, x.tolist()]
    return x


def talk(rep, key, cls, *args):
    """The argument check says the same with and without its running commentary."""
    rep.trace()
    rep.step(2)
    out = []
    for v in (False, True):
        with contextlib.redirect_stdout(io.StringIO()):
            r = call(cls.validate_arguments, *args, verbose=v)
        out.append(r.name if isinstance(r, Err) else flat(r))
    if out[0] != out[1]:
        rep.violation(key + ' verbose', 'verbose', '%s instead of %s' % (out[1], out[0]))
    rep.outcome('commented')


def cases(tier):
    nums = NUMS + (MORE if tier != 'quick' else [])
    dens = DENS + (MORE if tier != 'quick' else [])
    out = [['siso', n, d] for n in nums for d in dens]
    out += [['none', x] for x in NUMS + DENS]
    for p in (1, 2, 3):
        for m in (1, 2, 3):
            if (p, m) != (1, 1):
                out.append(['mimo', p, m])
            for r in (1, 2, 3):
                for q in (1, 2, 3):
                    out.append(['shapes', p, m, r, q])
    for lens in itertools.product((1, 2, 3), repeat=2):
        out.append(['ragged', list(lens)])
    for lens in itertools.product((1, 2, 3), repeat=3):
        out.append(['ragged', list(lens)])
    out.append(['bad'])
    for n, k, r, m in itertools.product((1, 2, 3), repeat=4):
        out.append(['dims', n, k, r, m])
    out += [['state', n, p, m] for n in (0, 1, 2, 3) for p in (1, 2) for m in (1, 2, 3)]
    return out


def pattern(p, m, k):
    """Entry patterns; k selects."""
    E = [([1], [1, 2]), ([2, 1], [1, 3]), ([0], [1]), ([3], [2]), ([1, 0], [1, 2, 5]),
         ([-1], [4, 1]), ([2], [1, 0]), ([5, 0, 1], [1, 1, 1]), ([7], [-1])]
    if k == 0:
        return [[E[(i*m+j) % 9] for j in range(m)] for i in range(p)]
    if k == 1:                       # common denominator
        return [[([i+1, j] if (i+j) % 2 else [j-i+4], [1, 5, 6]) for j in range(m)]
                for i in range(p)]
    if k == 2:                       # common numerator
        return [[([2, 1], [1, i, j+1]) for j in range(m)] for i in range(p)]
    if k == 3:                       # gains
        return [[([2*i-j+3], [1]) for j in range(m)] for i in range(p)]
    return [[([0] if i == j else [i-j], [1]) for j in range(m)] for i in range(p)]


def cellspell(c, how):
    return {'list': list(c), 'arr': np.array(c, float), 'row': np.array([c], float),
            'lz': [0, 0] + list(c), 'lzarr': np.array([0] + list(c), float),
            'scalar': c[0] if len(c) == 1 else list(c),
            'int': np.array(c, int) if all(float(x).is_integer() for x in c) else list(c)}[how]


CELLS = ['list', 'arr', 'row', 'lz', 'lzarr', 'scalar', 'int']


def run(case, rep):
    what = case[0]
    rep.state(case)
    if what == 'siso':
        n, d = case[1:]
        sn, sd = spell1(n), spell1(d)
        causal = len(trim(n)) <= len(d)
        for a in sn:
            for b in sd:
                for dt in DTS if (a, b) in (('list', 'list'), ('arr', 'row')) else DTS[:1]:
                    key = 'tf %s/%s as %s/%s dt=%s' % (n, d, a, b, dt)
                    rep.state(key)
                    if dt is None:
                        talk(rep, key, Transfer, sn[a], sd[b])
                    if causal:
                        rep.step()
                        check_tf(rep, key, call(Transfer, sn[a], sd[b], dt), [[(n, d)]], dt)
                    else:
                        refuse(rep, key, Transfer, sn[a], sd[b], dt)
    elif what == 'none':
        x = case[1]
        for a, s in spell1(x).items():
            k1, k2 = 'tf num=%s as %s, no den' % (x, a), 'tf den=%s as %s, no num' % (x, a)
            rep.state(k1)
            rep.state(k2)
            rep.step(2)
            talk(rep, k1, Transfer, s, None)
            talk(rep, k2, Transfer, None, s)
            if len(trim(x)) <= 1:
                check_tf(rep, k1, call(Transfer, s), [[(x, [1])]], None)
            elif a in ('nest', 'nestarr', 'list', 'ilist', 'flist', 'arr', 'iarr', 'lz', 'lzarr'):
                refuse(rep, k1, Transfer, s)
            if trim(x):
                check_tf(rep, k2, call(Transfer, None, s), [[([1], x)]], None)
            else:
                refuse(rep, k2, Transfer, None, s)
    elif what == 'mimo':
        p, m = case[1:]
        for k in range(5):
            e = pattern(p, m, k)
            for a in CELLS:
                for b in CELLS:
                    num = [[cellspell(x[0], a) for x in r] for r in e]
                    den = [[cellspell(x[1], b) for x in r] for r in e]
                    for dt in DTS if (a, b) == ('list', 'list') else DTS[:1]:
                        key = 'tf %dx%d pattern %d as %s/%s dt=%s' % (p, m, k, a, b, dt)
                        rep.state(key)
                        rep.step()
                        check_tf(rep, key, call(Transfer, num, den, dt), e, dt)
                key = 'tf %dx%d pattern %d no num, den as %s' % (p, m, k, a)
                den = [[cellspell(x[1], a) for x in r] for r in e]
                rep.state(key)
                rep.step()
                check_tf(rep, key, call(Transfer, None, den), [[([1], x[1]) for x in r] for r in e],
                         None)
                talk(rep, key, Transfer, None, den)
                talk(rep, key + ' and num', Transfer, num, den)
                talk(rep, key + ' only num', Transfer, num, None)
                if k == 1:
                    for b, s in spell1(e[0][0][1]).items():
                        key = 'tf %dx%d common den as %s/%s' % (p, m, a, b)
                        rep.state(key)
                        rep.step()
                        check_tf(rep, key, call(Transfer, num, s), e, None)
                        talk(rep, key, Transfer, num, s)
                if k == 2:
                    den = [[cellspell(x[1], a) for x in r] for r in e]
                    for b, s in spell1(e[0][0][0]).items():
                        key = 'tf %dx%d common num as %s/%s' % (p, m, b, a)
                        rep.state(key)
                        rep.step()
                        check_tf(rep, key, call(Transfer, s, den), e, None)
                        talk(rep, key, Transfer, s, den)
                if k >= 3:
                    key = 'tf %dx%d gain pattern %d as %s' % (p, m, k, a)
                    rep.state(key)
                    rep.step()
                    check_tf(rep, key, call(Transfer, num), e, None)
            if k >= 3 and min(p, m) > 1:
                arr = np.array([[x[0][0] for x in r] for r in e])
                for b, s in (('float', arr.astype(float)), ('int', arr),
                             ('F', np.asfortranarray(arr, float)), ('view', arr[:, ::-1][:, ::-1])):
                    key = 'tf %dx%d gain pattern %d array %s' % (p, m, k, b)
                    rep.step()
                    check_tf(rep, key, call(Transfer, s), e, None)
            # one bad entry in every position
            for i in range(p):
                for j in range(m):
                    for bad, x in (('noncausal', [1, 2, 3, 4]), ('str', 'a'), ('complex', [1j, 2]),
                                   ('none', None), ('dict', {}), ('strs', ['x', 'y'])):
                        for b in ('list', 'arr'):
                            num = [[cellspell(y[0], b) for y in r] for r in e]
                            den = [[cellspell(y[1], b) for y in r] for r in e]
                            num[i][j] = np.array(x) if bad == 'noncausal' and b == 'arr' else x
                            key = 'tf %dx%d pattern %d num %s at %d,%d %s' % (p, m, k, bad, i, j, b)
                            if bad == 'none':
                                continue
                            rep.state(key)
                            refuse(rep, key, Transfer, num, den)
                            if k == 1 and bad == 'noncausal':
                                refuse(rep, key + ' common', Transfer, num, [1, 5, 6])
                            if k >= 3 and bad == 'noncausal':
                                refuse(rep, key + ' nod', Transfer, num)
                    den = [[list(y[1]) for y in r] for r in e]
                    den[i][j] = [0]
                    num = [[list(y[0]) for y in r] for r in e]
                    refuse(rep, 'tf %dx%d pattern %d zero den at %d,%d' % (p, m, k, i, j),
                           Transfer, num, den)
                    if k == 2:
                        den[i][j] = [3]
                        refuse(rep, 'tf %dx%d common num noncausal at %d,%d' % (p, m, i, j),
                               Transfer, [2, 1], den)
    elif what == 'shapes':
        p, m, r, q = case[1:]
        num = [[[1]]*m for _ in range(p)]
        den = [[[1, 2]]*q for _ in range(r)]
        key = 'tf num %dx%d den %dx%d' % (p, m, r, q)
        talk(rep, key, Transfer, num, den)
        if (p, m) == (r, q) or (1, 1) in ((p, m), (r, q)):
            s = (max(p, r), max(m, q))
            rep.step()
            check_tf(rep, key, call(Transfer, num, den), [[([1], [1, 2])]*s[1]]*s[0], None)
        else:
            refuse(rep, key, Transfer, num, den)
    elif what == 'ragged':
        lens = case[1]
        rows = [[[1]]*k for k in lens]
        if len(set(lens)) > 1:
            refuse(rep, 'tf ragged num %s' % lens, Transfer, rows, [1, 2])
            refuse(rep, 'tf ragged num alone %s' % lens, Transfer, rows)
            refuse(rep, 'tf ragged den %s' % lens, Transfer, 1, [[[1, 2]]*k for k in lens])
            refuse(rep, 'tf ragged both %s' % lens, Transfer, rows, [[[1, 2]]*k for k in lens])
            fl = [[1.]*k for k in lens]
            refuse(rep, 'ss ragged gain %s' % lens, State, fl)
            refuse(rep, 'ss ragged b %s' % lens, State, np.eye(len(lens)).tolist(), fl,
                   [[1.]*len(lens)])
    elif what == 'bad':
        for b, x in (('str', 'a'), ('dict', {}), ('set', {1}), ('strl', ['a', 'b']),
                     ('cpl', 1j), ('cpll', [1j, 1]), ('cpla', np.array([1j, 2.])),
                     ('obj', object()), ('mixed', [1, 'a'])):
            refuse(rep, 'tf bad num ' + b, Transfer, x, [1, 2, 3])
            refuse(rep, 'tf bad den ' + b, Transfer, 1, x)
            refuse(rep, 'tf bad gain ' + b, Transfer, x)
            refuse(rep, 'ss bad gain ' + b, State, x)
            for k in range(4):
                abcd = [[[-1.]], [[1.]], [[1.]], [[0.]]]
                abcd[k] = x
                refuse(rep, 'ss bad %s %s' % ('abcd'[k], b), State, *abcd)
                abcd = [-np.eye(2), np.eye(2), np.eye(2), np.eye(2)]
                z = np.eye(2)*1j
                abcd[k] = z
                refuse(rep, 'ss complex %s' % 'abcd'[k], State, *abcd)
        for z in ([0], [0, 0], np.zeros(3), 0, 0., [[[0]]], np.zeros((1, 2))):
            refuse(rep, 'tf zero den %r' % (z,), Transfer, 1, z)
            refuse(rep, 'tf zero common den %r' % (z,), Transfer, [[1, 2], [3, 4]], z)
            refuse(rep, 'tf zero over zero %r' % (z,), Transfer, 0, z)
        for dt in (0, 0., -1, -0.5, 'a', [1, 2], {}, 1j, np.array([1., 2.]), np.nan, np.inf):
            for nm, f in (('tf', lambda: Transfer(1, [1, 2], dt)), ('tfk', lambda: Transfer(3, dt=dt)),
                          ('tfm', lambda: Transfer([[1, 2]], [1, 2], dt)),
                          ('ss', lambda: State(-1, 1, 1, 0, dt)), ('ssk', lambda: State(2, dt=dt)),
                          ('ssm', lambda: State([[1, 2], [3, 4]], dt=dt))):
                refuse(rep, '%s dt=%r' % (nm, dt), f)
    elif what == 'dims':
        n, k, r, m = case[1:]
        cnt = iter(range(1, 1000))
        mk = lambda a, b: np.array([[next(cnt) for _ in range(b)] for _ in range(a)], float)
        for p, q in itertools.product((1, 2, 3), repeat=2):
            A, B, C = mk(n, k), mk(r, m), mk(p, q)
            ok = n == k and q == n and (r == n or (r == 1 and m == n))
            Bt = B if r == n else B.T
            mm = Bt.shape[1]
            for s, t in [None] + list(itertools.product((1, 2, 3), repeat=2)) if False else \
                    [(0, 0)] + list(itertools.product((1, 2, 3), repeat=2)):
                D = mk(s, t) if s else None
                key = 'ss A%dx%d B%dx%d C%dx%d D%dx%d' % (n, k, r, m, p, q, s, t)
                rep.state(key)
                if not ok or (s and (s, t) != (p, mm) and (t, s) != (p, mm)):
                    refuse(rep, key, State, A, B, C, D)
                    continue
                rep.step()
                rep.trace()
                g = call(State, A, B, C, D)
                talk(rep, key, State, A, B, C, D)
                plain = r == n and (not s or (s, t) == (p, mm))
                if isinstance(g, Err):
                    if plain:
                        rep.violation(key, 'refused', repr(g))
                    continue
                Dt = np.zeros((p, mm)) if not s else (D if (s, t) == (p, mm) else D.T)
                if not s == 0 and (s, t) != (p, mm) and s != 1:
                    rep.violation(key, 'accepted', 'feedthrough of the wrong shape')
                    continue
                if tuple(g.shape) != (p, mm) or g.NumberOfStates != n or any(
                        not np.array_equal(x, y) for x, y in zip(g.matrices, (A, Bt, C, Dt))):
                    rep.violation(key, 'matrices', 'stored data differ from the given ones')
                rep.outcome('ss %dx%d' % (p, mm))
    else:
        n, p, m = case[1:]
        A = np.array([[-1., 2, 0], [0, -3, 1], [1, 0, -2]])[:n, :n]
        B = np.array([[1., 0, 2], [0, 1, -1], [3, 1, 0]])[:n, :m]
        C = np.array([[1., -1, 2], [0, 2, 1]])[:p, :n]
        D = np.array([[4., 5, 6], [0, 1, -2]])[:p, :m]
        SP = {'arr': lambda x: x.copy(), 'list': lambda x: x.tolist(), 'int': lambda x: x.astype(int),
              'F': lambda x: np.asfortranarray(x), 'view': lambda x: np.repeat(x, 2, 0)[::2],
              'cplx': lambda x: x.astype(complex), 'f32': lambda x: x.astype(np.float32),
              '1d': lambda x: x[0].tolist() if x.shape[0] == 1 else x,
              'scalar': lambda x: float(x.item()) if x.size == 1 else x,
              'iscalar': lambda x: int(x.item()) if x.size == 1 else x}
        if n == 0:
            for a, f in SP.items():
                for dt in DTS:
                    for how in (0, 1):
                        key = 'ss gain %dx%d as %s dt=%s form %d' % (p, m, a, dt, how)
                        rep.state(key)
                        rep.step()
                        rep.trace()
                        g = call(State, f(D), dt=dt) if how == 0 else \
                            call(State, None, None, None, f(D), dt)
                        if isinstance(g, Err):
                            if a != 'cplx':
                                rep.violation(key, 'refused', repr(g))
                            continue
                        if tuple(g.shape) != (p, m) or g.SamplingPeriod != dt \
                                or not np.array_equal(g.d, D) or np.size(g.a) \
                                or np.size(g.poles) or g.NumberOfStates not in (0, None):
                            rep.violation(key, 'matrices', 'not the given gain')
                        rep.outcome('ss gain')
            return
        for fs in itertools.product(SP, repeat=2):
            for pos in range(4):
                for dt in DTS if fs[0] == 'arr' else DTS[:1]:
                    sp = [fs[1]]*4
                    sp[pos] = fs[0]
                    # a flat list means a column where that is the only reading
                    args = [x.ravel().tolist() if s == '1d' and i in (1, 3) and 1 in x.shape
                            else SP[s](x) for i, (s, x) in enumerate(zip(sp, (A, B, C, D)))]
                    for nod in ((False, True) if pos == 3 else (False,)):
                        key = 'ss n=%d %dx%d as %s dt=%s%s' % (n, p, m, '/'.join(sp), dt,
                                                               ' no d' if nod else '')
                        rep.state(key)
                        rep.step()
                        rep.trace()
                        g = call(State, *args[:3], None if nod else args[3], dt)
                        if dt is None:
                            talk(rep, key, State, *args[:3], None if nod else args[3])
                        if isinstance(g, Err):
                            if 'cplx' not in sp:
                                rep.violation(key, 'refused', repr(g))
                            continue
                        ref = (A, B, C, np.zeros((p, m)) if nod else D)
                        if tuple(g.shape) != (p, m) or g.SamplingPeriod != dt or \
                                g.NumberOfStates != n or \
                                any(not np.array_equal(x, y) or np.asarray(x).dtype.kind != 'f'
                                    for x, y in zip(g.matrices, ref)):
                            rep.violation(key, 'matrices', 'stored data differ from the given')
                        rep.outcome('ss %dx%d' % (p, m))
