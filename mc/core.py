"""Exhaustive case runner: enumerates, executes, compares, reports."""
import collections
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

from . import env
import numpy as np

QUICK_DEADLINE = 780.
THOROUGH_DEADLINE = 10000.
FINDINGS = os.path.join(env.VERIF, 'known_findings.txt')


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def h64(*parts):
    """64 bit hash of a canonical state description."""
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            m.update(str(p.shape).encode())
            m.update(np.ascontiguousarray(p).tobytes())
        else:
            m.update(repr(p).encode())
        m.update(b'|')
    return int.from_bytes(m.digest(), 'little')


class Err:
    """An exception that came out of library code."""
    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__

    def __repr__(self):
        return '%s(%s)' % (self.name, str(self.exc).replace('\n', ' ')[:120])


def call(f, *a, **k):
    """Run library code; an exception becomes an `Err` value.

    MemoryError and the like would be environment failures, so only Exception counts."""
    try:
        return f(*a, **k)
    except Exception as e:     # noqa
        return Err(e)


class Report:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.violations = []
        self.margin = {}
        self.samples = []
        self.skipped = collections.Counter()
        self.case = None

    def state(self, *parts):
        self.states.add(h64(*parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, kind):
        self.outcomes[kind] += 1

    def skip(self, why):
        self.skipped[why] += 1

    def violation(self, key, sig, msg):
        self.violations.append(dict(key=key, sig=sig, msg=msg, case=self.case))

    def close(self, what, got, ref, tol, scale=None):
        """True if |got-ref| <= tol*scale everywhere; tracks how much of tol was used."""
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            return False
        if got.size == 0:
            return True
        if got.dtype == object or not np.all(np.isfinite(got)):
            return False
        if scale is None:
            scale = 1. + np.max(np.abs(ref))
        e = float(np.max(np.abs(got - ref)) / scale)
        if e <= tol:
            if e/tol > self.margin.get(what, -1.):
                self.margin[what] = e/tol
            return True
        return False

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes.update(o.outcomes)
        self.skipped.update(o.skipped)
        self.violations += o.violations
        for k, v in o.margin.items():
            self.margin[k] = max(v, self.margin.get(k, -1.))
        self.samples += o.samples


def load(prop):
    return importlib.import_module('mc.checks.' + prop.lower())


def run_one(mod, case, rep, limit):
    rep.case = case
    np.random.seed(abs(hash(json.dumps(case, sort_keys=True, default=str))) % 2**32
                   if False else h64(case) % 2**32)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, rep)
    except CaseTimeout:
        rep.violation(json.dumps(case, default=str), 'timeout',
                      'did not finish within %g s' % limit)
    except Exception as e:
        rep.violation(json.dumps(case, default=str), 'malformed:' + type(e).__name__,
                      'result could not be evaluated: '
                      + traceback.format_exc(limit=-4).replace('\n', ' | '))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(prop, tier, order, counter, chunk, path, limit, deadline):
    mod = load(prop)
    cases = mod.cases(tier)
    if not isinstance(cases, list):
        cases = list(cases)
    rep = Report()
    done = 0
    saved = 0.
    n = len(order)
    devnull = open(os.devnull, 'w')
    # library prints and LAPACK argument messages are not part of the report
    for fd in (1, 2):
        os.dup2(devnull.fileno(), fd)
    while True:
        with counter.get_lock():
            s = counter.value
            counter.value = s + chunk
        if s >= n or time.time() > deadline:
            break
        for i in order[s:s+chunk]:
            with open(path + '.cur', 'w') as f:
                f.write(str(i))
            before = len(rep.violations)
            run_one(mod, cases[i], rep, limit)
            done += 1
            if len(rep.violations) > before and (not before or time.time() > saved + 2):
                saved = time.time()
                # keep what was found in case a later call kills this process
                with open(path + '.tmp', 'wb') as f:
                    pickle.dump((done, rep.__dict__), f)
                os.replace(path + '.tmp', path + '.part')
                if len(rep.violations) > 4000:
                    with counter.get_lock():
                        counter.value = n
                    break
    with open(path, 'wb') as f:
        pickle.dump((done, rep.__dict__), f)
    os._exit(0)


def read_findings(prop):
    """-> {finding id: text}, {(sig, key): finding id}"""
    text, cases = {}, {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % prop):
                fid, what = line.split(' ', 2)[2].split(' ', 1)
                text[fid.split('=', 1)[1]] = what
            elif line.startswith('case: '):
                _, fid, sig, key = line.split(' ', 3)
                cases.setdefault(fid, []).append((sig, key))
    known = {}
    for fid in text:
        for sk in cases.get(fid, ()):
            known[sk] = fid
    return text, known


def jsonable(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, complex):
        return [x.real, x.imag]
    return str(x)


def main(prop, tier, seed, dump=None):
    t0 = time.time()
    deadline = t0 + (QUICK_DEADLINE if tier == 'quick' else THOROUGH_DEADLINE)
    mod = load(prop)
    cases = mod.cases(tier)
    if not isinstance(cases, list):
        cases = list(cases)
    n = len(cases)
    rot = (seed * 7919) % n
    order = list(range(rot, n)) + list(range(rot))
    nproc = max(1, min(8, os.cpu_count() or 1, n))
    chunk = max(1, min(getattr(mod, 'CHUNK', 64), n // (nproc*8) or 1))
    limit = getattr(mod, 'CASE_LIMIT', 60.)
    tmp = tempfile.mkdtemp(prefix='verif-')
    ctx = mp.get_context('fork')
    counter = ctx.Value('q', 0)
    serial = iter(range(10**6))

    def spawn():
        path = os.path.join(tmp, str(next(serial)))
        pr = ctx.Process(target=_worker, args=(prop, tier, order, counter, chunk, path, limit,
                                               deadline))
        pr.start()
        return pr, path

    total = Report()
    done = 0
    crashed = 0
    live = [spawn() for _ in range(nproc)]
    while live:
        time.sleep(0.05)
        nxt = []
        for pr, path in live:
            if pr.is_alive():
                # a call stuck inside compiled code does not see the alarm signal
                try:
                    stuck = time.time() - os.stat(path + '.cur').st_mtime > limit + 15
                except OSError:
                    stuck = False
                if not stuck:
                    nxt.append((pr, path))
                    continue
                pr.kill()
                pr.join()
                sig, msg = 'timeout', 'did not finish within %g s' % (limit + 15)
            else:
                pr.join()
                sig, msg = 'crash', 'the interpreter died (exit code %s)' % pr.exitcode
            src = path if os.path.exists(path) else path + '.part'
            if os.path.exists(src):
                with open(src, 'rb') as f:
                    d, dic = pickle.load(f)
                r = Report()
                r.__dict__.update(dic)
                total.merge(r)
                done += d
            if os.path.exists(path):
                continue
            crashed += 1
            try:
                case = cases[int(open(path + '.cur').read())]
            except Exception:
                case = None
            total.case = case
            total.violation(json.dumps(case, default=str), sig, msg)
            if crashed < 5:
                nxt.append(spawn())
        live = nxt
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    complete = done == n

    text, known = read_findings(prop)
    hit = collections.Counter()
    real = []
    for v in total.violations:
        fid = known.get((v['sig'], v['key']))
        if fid is None:
            real.append(v)
        else:
            hit[fid] += 1
    if dump:
        with open(dump, 'w') as f:
            for v in total.violations:
                f.write(json.dumps(v, default=jsonable) + '\n')
    for fid, what in sorted(text.items()):
        print('KNOWN-FINDING: property=%s %s (%d listed inputs, %d seen failing)'
              % (prop, what, sum(1 for x in known.values() if x == fid), hit[fid]))

    real.sort(key=lambda v: (len(v['key']), v['key'], v['sig']))
    rdir = os.path.join(env.VERIF, 'replays')
    shown = []
    seen_sig = collections.Counter()
    for v in real:
        seen_sig[v['sig']] += 1
        if seen_sig[v['sig']] <= 2 and len(shown) < 8:
            shown.append(v)
    for k, v in enumerate(shown):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, k))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, **v), f, indent=1, default=jsonable)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   case : %s' % v['key'][:300])
        print('   what : %s: %s' % (v['sig'], v['msg'][:600]))
    if len(real) > len(shown):
        print('   ... %d failing comparisons in total: %s' % (len(real), dict(seen_sig)))

    # a few example traces, spread over the space
    step = max(1, n // 5)
    samples = [json.loads(json.dumps(c, default=jsonable)) for c in cases[::step][:6]]
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(total.states), transitions=total.transitions,
                            traces_validated_against_impl=total.traces,
                            samples=samples, exhaustive=bool(complete and not crashed),
                            cases_enumerated=n, cases_run=done,
                            distinct_outcomes=len(total.outcomes),
                            outcomes=dict(total.outcomes.most_common(40)),
                            not_compared=dict(total.skipped),
                            largest_error_over_tolerance={k: float('%.2g' % v)
                                                          for k, v in total.margin.items()},
                            bounds=getattr(mod, 'BOUNDS', {}).get(tier, '')),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=len(real), wall_s=round(wall, 2))
    edir = os.path.join(env.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d margin=%s '
          'skipped=%s wall=%.1fs'
          % (prop, tier, done, n, len(total.states), total.transitions, total.traces,
             len(total.outcomes), {k: '%.1g' % v for k, v in total.margin.items()},
             dict(total.skipped), wall))
    if not complete and not crashed:
        print('time limit reached: coverage is NOT exhaustive (%d of %d cases)' % (done, n))
    return 1 if real else 0


def replay(path):
    v = json.load(open(path))
    mod = load(v['property'])
    rep = Report()
    run_one(mod, v['case'], rep, 600.)
    bad = [x for x in rep.violations if x['key'] == v['key']] or rep.violations
    for x in bad[:5]:
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        print('   case : %s\n   what : %s: %s' % (x['key'], x['sig'], x['msg']))
    if not bad:
        print('replay: no violation')
    return 1 if bad else 0
