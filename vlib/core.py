"""Verdict discipline shared by every check: cases, workers, evidence, replay files.

A check module (checks/cNN.py) provides
    PROP, RULE, N = {'quick': n, 'thorough': n}
    case(r, i, rng, tier)      -- runs case i, reports through r (a Rec)
and optionally JIT (default True), ENV (extra environment), setup(tier), NEED (counters
that must be non-zero, otherwise the run is inconclusive: exit 2), FINISH(total).
"""
import os, sys, json, time, pickle, struct, traceback, signal, re, select, hashlib
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.md')


class Stop(Exception):
    """Raised to end a case after a violation."""


def clean(o, depth=0):
    if isinstance(o, dict):
        return {str(k): clean(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return clean(o.tolist(), depth + 1)
    if isinstance(o, (np.floating, float)):
        o = float(o)
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)


class Rec:
    """What one case observed."""

    def __init__(self):
        self.counts = {}
        self.maxi = {}
        self.viol = []          # (key, message, details)
        self.keys = set()       # distinct non-trivial behaviours observed
        self.sample = None

    def count(self, name, n=1):
        n = int(n)
        if n:
            self.counts[name] = self.counts.get(name, 0) + n

    def peak(self, name, v):
        v = float(v)
        if v > self.maxi.get(name, -np.inf):
            self.maxi[name] = v

    def seen(self, *key):
        self.keys.add('|'.join(str(k) for k in key))

    def violate(self, key, msg, stop=True, **details):
        self.viol.append((key, msg, clean(details)))
        if stop or len(self.viol) > 20:
            raise Stop()

    def check(self, ok, key, msg='', stop=True, **details):
        """One monitor evaluation."""
        self.count(key)
        if not ok:
            self.violate(key, msg, stop=stop, **details)
        return ok

    def close(self, a, b, key, msg='', rtol=1e-9, atol=0.0, stop=True, **details):
        """Elementwise agreement; NaN/inf must match exactly."""
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            self.violate(key, msg + ' (shapes %s and %s)' % (a.shape, b.shape), stop=stop, **details)
            return False
        with np.errstate(all='ignore'):
            bad = ~((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b)
                    | (np.isnan(a) & np.isnan(b)))
        self.count(key, a.size)
        if a.size and bad.any():
            j = int(np.flatnonzero(bad.ravel())[0])
            self.violate(key, msg, stop=stop, index=j, observed=a.ravel()[j], expected=b.ravel()[j],
                         rtol=rtol, atol=atol, **details)
            return False
        return True


def guarded(r, fn, *args):
    try:
        fn(r, *args)
    except Stop:
        pass
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get('VB_REPO', '/repo')) + os.sep
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(repo)]
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:]))
        if inside:
            r.viol.append(('exception', 'the code under test raised %s: %s on a valid case (%s)'
                           % (type(e).__name__, str(e)[:200], where),
                           dict(traceback=traceback.format_exc()[-1500:])))
        else:
            r.counts['harness_error'] = r.counts.get('harness_error', 0) + 1
            r.harness = traceback.format_exc()


def _worker(mod, ids, seed, tier, fd, deadline):
    out = os.fdopen(fd, 'wb', buffering=0)

    def send(o):
        b = pickle.dumps(o)
        out.write(struct.pack('<I', len(b)) + b)
    for i in ids:
        if time.time() > deadline:
            send(('skip', i, None))
            continue
        send(('start', i, None))
        r = Rec()
        rng = np.random.default_rng([int(seed), int(i), int(mod.PROP[1:])])
        t = time.time()
        guarded(r, mod.case, i, rng, tier)
        r.wall = time.time() - t
        send(('done', i, r))
    send(('end', -1, None))
    out.close()


def run(mod, tier, seed, only=None, nproc=None):
    t0 = time.time()
    from vlib import boot
    n = mod.N[tier]
    ids = list(range(n)) if only is None else list(only)
    order = ids
    nproc = nproc or min(boot.ncores(), max(1, len(ids)))
    budget = float(os.environ.get('VB_BUDGET', '600' if tier == 'quick' else '720'))
    deadline = t0 + budget
    kids = {}
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(nproc):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _worker(mod, order[w::nproc], seed, tier, wfd, deadline)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids[rfd] = dict(pid=pid, buf=b'', cur=None, ended=False, since=time.time())
    total = Rec(); total.cases = 0; total.skipped = 0; total.problems = []; samples = []
    fails = []
    while kids:
        rl, _, _ = select.select(list(kids), [], [], 1.0)
        for fd in rl:
            k = kids[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                _, st = os.waitpid(k['pid'], 0)
                if not k['ended']:
                    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                        fails.append((k['cur'], ('crash', 'the process died with signal %d' % os.WTERMSIG(st), {})))
                    else:
                        total.problems.append('worker ended abnormally (status %r) in case %r' % (st, k['cur']))
                del kids[fd]
                continue
            k['buf'] += b
            while len(k['buf']) >= 4:
                m = struct.unpack('<I', k['buf'][:4])[0]
                if len(k['buf']) < 4 + m:
                    break
                kind, i, r = pickle.loads(k['buf'][4:4 + m])
                k['buf'] = k['buf'][4 + m:]
                k['since'] = time.time()
                if kind == 'start':
                    k['cur'] = i
                elif kind == 'skip':
                    total.skipped += 1
                elif kind == 'end':
                    k['ended'] = True
                else:
                    total.cases += 1
                    for a, c in r.counts.items():
                        total.counts[a] = total.counts.get(a, 0) + c
                    for a, c in r.maxi.items():
                        total.peak(a, c)
                    total.keys |= r.keys
                    for v in r.viol:
                        fails.append((i, v))
                    if getattr(r, 'harness', None):
                        total.problems.append(r.harness)
                    if r.sample is not None and len(samples) < 3:
                        samples.append(dict(case=i, **clean(r.sample)))
        for fd, k in list(kids.items()):
            if time.time() - k['since'] > 240:
                os.kill(k['pid'], signal.SIGKILL)
                total.problems.append('watchdog: case %r did not finish' % (k['cur'],))
                k['since'] = time.time() + 1e6
    return finish(mod, tier, seed, total, fails, samples, time.time() - t0, replay=only is not None)


def known(prop):
    """Listed findings: lines '- known: property=<id> key=<key> match=<regex> :: text'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'-\s*known:\s*property=(\S+)\s+key=(\S+)\s+match=(.*?)\s+::\s+(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def finish(mod, tier, seed, total, fails, samples, wall, replay=False):
    os.makedirs(EVID, exist_ok=True)
    prop = mod.PROP
    listed = known(prop)
    real, kf = [], {}
    for i, v in sorted(fails, key=lambda f: (f[0] is None, f[0])):
        hit = None
        for key, rx, text in listed:
            if key == v[0] and re.search(rx, v[1]):
                hit = text
        if hit:
            kf[hit] = kf.get(hit, 0) + 1
        else:
            real.append((i, v))
    for text in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    rdir = os.path.join(EVID, 'replay')
    paths = []
    for i, (key, msg, det) in real[:4]:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s_%s_%s.json' % (prop, i, re.sub(r'\W+', '_', key)[:40]))
        with open(p, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, case=i, monitor=key, message=msg, details=det),
                      f, indent=1)
        paths.append(p)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  monitor %s, case %s: %s' % (key, i, msg[:400]))
        if len(paths) == 1:
            print('  %s' % json.dumps(det)[:600])
    need = [c for c in getattr(mod, 'NEED', []) if not total.counts.get(c)]
    ev = dict(property=prop, tier=tier, seed=int(seed), level='exploration',
              coverage=dict(evaluations=int(total.cases), distinct_nontrivial=len(total.keys),
                            rule=mod.RULE, samples=samples,
                            monitor_evaluations={k: int(v) for k, v in sorted(total.counts.items())},
                            peaks={k: clean(v) for k, v in sorted(total.maxi.items())},
                            behaviours_seen=sorted(total.keys)[:60],
                            cases_skipped_for_time=int(total.skipped)),
              assumptions=list(getattr(mod, 'ASSUME', [])),
              wall_s=round(wall, 2), violations=len(real))
    if not replay:
        tmp = os.path.join(EVID, prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('%s %s seed=%s: %d cases, %d distinct behaviours, %d violations, %.1f s; %s'
          % (prop, tier, seed, total.cases, len(total.keys), len(real), wall,
             ', '.join('%s=%d' % kv for kv in sorted(total.counts.items()))[:900]))
    if real:
        return 1
    if total.problems:
        print('INCONCLUSIVE: ' + total.problems[0][-1500:])
        return 2
    if not replay and need:
        print('INCONCLUSIVE: nothing observed for %s' % ', '.join(need))
        return 2
    return 0
