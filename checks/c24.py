#ENV NUMBA_BOUNDSCHECK=1
#ENV NUMBA_NUM_THREADS=4
"""Sanitized execution of the compiled kernels, and the compiled code against an interpreted twin of the same sources.

Bounds checks are compiled into every kernel (NUMBA_BOUNDSCHECK).  Freshly allocated memory is filled with
a different byte in two compiled runs (mallopt M_PERTURB), which must agree bit for bit.  The interpreted twin
is a second import of the package with compilation off, whose np.empty hands out NaN."""
import ctypes, sys, types
import numpy as np
from vlib import nets, traj, twin
from checks import c21, c22

PROP = 'C24'
N = {'quick': 300, 'thorough': 40000}
KINDS = ['hydro', 'hydro', 'mobile', 'quality', 'hydro', 'infiltration', 'functions', 'filter', 'assimilate', 'routes']
NEED = ['hydraulics', 'mobile', 'quality', 'infiltration', 'functions', 'filter', 'assimilate', 'routes', 'poisoned', 'interpreted_calls', 'large',
        '~numba_reposition_junctions', '~numba_create_banded', '~numba_solve_internals_ls', '~numba_transect_geometry', '~numba_compute_tabular_storage_areas',
        '~numba_boundary_transect', '~KF_WQ2', '~run_green_ampt_newton', '~bounded_newton_raphson', '~_kalman_semi_implicit', '~interpolate_sample']
RULE = ('random models executed twice compiled with bounds checks over differently poisoned memory and once interpreted; one evaluation is one '
        'state variable after one step; counters beginning with ~ are calls into each kernel seen in the interpreted twin; '
        'behaviours are (workload, options, controls, tables, shapes)')
ASSUME = ['comparison of a trajectory stops when rounding-size perturbations of the inputs already move it by 1e-6',
          'indices counted from the end of an array are in bounds, as in the language']
FIELDS = twin.FIELDS + ('A_ik', 'B_ik', 'Pe_ik', 'R_ik', 'A_uk', 'A_dk', 'A_sj', 'V_sj')
T = types.SimpleNamespace()
COUNT = {}


class Poison:
    """numpy whose empty arrays are full of NaN"""

    def __getattr__(self, a):
        return getattr(np, a)

    def empty(self, *a, **k):
        v = np.empty(*a, **k)
        v.fill(np.nan if v.dtype.kind == 'f' else 1 if v.dtype.kind == 'b' else 2 ** 31 if v.dtype.itemsize == 8 else 100)
        return v

    def empty_like(self, x, dtype=None, **k):
        return self.empty(np.shape(x), dtype=dtype or np.asarray(x).dtype)


def counted(name, f):
    def g(*a, **k):
        COUNT[name] = COUNT.get(name, 0) + 1
        return f(*a, **k)
    g.__name__ = name
    g.raw = f
    return g


def setup(tier):
    import numba
    import pipedream_solver.nsuperlink, pipedream_solver.nquality, pipedream_solver.ninfiltration, pipedream_solver.simulation, pipedream_solver.nutils
    disp = numba.core.dispatcher.Dispatcher
    first = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'pipedream_solver'}
    old = numba.config.DISABLE_JIT
    try:
        for k in first:
            del sys.modules[k]
        numba.config.DISABLE_JIT = 1
        import pipedream_solver.nsuperlink as ns, pipedream_solver.nquality as nq, pipedream_solver.ninfiltration as ni
        import pipedream_solver.simulation as si, pipedream_solver.nutils as nu, pipedream_solver.ngeometry as ng
        second = {k: v for k, v in sys.modules.items() if k.split('.')[0] == 'pipedream_solver'}
    finally:
        numba.config.DISABLE_JIT = old
        for k in [k for k in sys.modules if k.split('.')[0] == 'pipedream_solver']:
            del sys.modules[k]
        sys.modules.update(first)
    T.jit = {k.split('.')[-1]: v for k, v in first.items()}
    T.py = {k.split('.')[-1]: v for k, v in second.items()}
    wrapped = {}
    T.kernels = {}
    for k, m in second.items():
        for n, f in list(vars(m).items()):
            a = getattr(first.get(k), n, None)
            if isinstance(a, disp) and isinstance(f, types.FunctionType):
                if a.py_func.__module__ == k:
                    T.kernels[(k.split('.')[-1], n)] = (a, f)
                if f not in wrapped:
                    wrapped[f] = counted(n, f)
                setattr(m, n, wrapped[f])
        if hasattr(m, 'np'):
            m.np = Poison()
    assert len(T.kernels) > 100, 'no compiled kernels found'
    # a kernel that was renamed or merged into its caller is seen through its caller
    NEED[:] = [n for n in NEED if n[0] != '~' or n[1:] in {k[1] for k in T.kernels}]

    @numba.njit
    def probe(x):
        return x[7]
    try:
        probe(np.zeros(2))
        raise AssertionError('bounds checks are not compiled in')
    except IndexError:
        pass
    T.mallopt = ctypes.CDLL(None).mallopt


def three(r, key, run, fields=None, mapping=twin.ident, tol=1e-9, **d):
    """run(tree, perturbed) -> list of states"""
    T.mallopt(-6, 0x5a)
    a = run(T.jit, False)
    T.mallopt(-6, 0xff)
    b = run(T.jit, False)
    T.mallopt(-6, 0)
    r.check(len(a) == len(b), 'poisoned', '%s: the run depends on the content of fresh memory' % key, **d)
    for s, (x, y) in enumerate(zip(a, b)):
        for f in x:
            r.count('poisoned', x[f].size)
            r.check(np.array_equal(x[f], y[f], equal_nan=True), 'poisoned', '%s: %s depends on the content of fresh memory' % (key, f),
                    step=s, first=x[f], second=y[f], **d)
    COUNT.clear()
    c = run(T.py, False)
    for n, v in COUNT.items():
        r.count('~' + n, v)
    r.count('interpreted_calls', sum(COUNT.values()))
    p = run(T.jit, True)
    n = twin.compare(r, key, c, a, mapping, p, 'compiled and interpreted execution (%s)' % key, tol=tol, atol=tol, fields=fields, **d)
    if not n:
        r.count(key + '_uninformative')
    return a


def drive(m, steps, **k):
    return twin.drive(m, steps, record=FIELDS, **k)


def hydro(r, i, rng, tier, kind):
    j = int(rng.integers(len(traj.OPTS)))
    force = {}
    build, sk = {}, {}
    nstep = 6
    if kind == 'large':
        force = dict(M=int(rng.integers(90, 110)), extra=10, controls='', internal_links=4); nstep = 2; r.count('large')
    if kind == 'mobile':
        force['controls'] = ''                       # heads are moved without moving control flows
    if kind == 'routes':
        c = int(rng.integers(4))
        if c == 0:
            build['auto_permute'] = True; force['M'] = int(rng.integers(3, 12))
        elif c == 1:
            sk['banded'] = True
        else:
            build['method'] = ['lsq', 'nnls', 'f'][int(rng.integers(3))]
    spec, kw, steps = traj.scenario(rng, j, nstep, **force)
    if kind == 'mobile':
        spec.pop('internals', None); kw['mobile_elements'] = True
        n = int(rng.integers(2, 9))
        spec['kw']['internal_links'] = n
        nI = nets.nik(spec)
        for e in steps:
            if 'Q_0Ik' in e:
                e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, nI)]
        heads = [rng.uniform(-0.5, 1.5, len(spec['sj'])) for _ in steps]
    single = False
    if kind == 'hydro' and rng.random() < 0.2 and not spec.get('internals'):
        spec['kw']['internal_links'] = 1; kw['mobile_elements'] = False; single = True
        nI = nets.nik(spec)
        for e in steps:
            if 'Q_0Ik' in e:
                e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, nI)]
    r.sample = dict(workload=kind, **build, **sk, **traj.describe(spec, kw))
    r.seen(kind, single, str(build) + str(sk), bool(spec.get('internals')), bool(spec['orifices']), bool(spec['weirs']), bool(spec['pumps']),
           any(s['storage'] == 'tabular' for s in spec['sj']), any(s['shape'] == 'irregular' for s in spec['sl']))

    def run(tree, pert):
        m = nets.build(twin.jitter(spec) if pert else spec, cls=tree['nsuperlink'].nSuperLink, **kw, **build)
        st = twin.perturbed(steps) if pert else steps
        if build.get('auto_permute'):
            p = np.asarray(m.permutations)
            st = [dict(e, **{f: [e[f][q] for q in p] for f in ('Q_in', 'H_bc') if e.get(f) is not None}) for e in st]
        if kind != 'mobile':
            return drive(m, st, **sk)
        out = []
        for e, h in zip(st, heads):
            out += drive(m, [e])
            m.H_j = np.maximum(np.asarray(m.H_j) + 0.2 * h, np.asarray(m.z_inv_j if hasattr(m, 'z_inv_j') else m._z_inv_j) + 1e-3) + (1e-11 if pert else 0)
            m.reposition_junctions()
            if not (np.abs(m.h_Ik).max() < 15 and np.abs(m.Q_ik).max() < 50):
                r.count('runaway'); break              # see C23
            out[-1].update(x_Ik=np.array(m.x_Ik), h_Ik=np.array(m.h_Ik), Q_ik=np.array(m.Q_ik))
        return out
    three(r, 'hydraulics' if kind in ('hydro', 'large') else kind, run, spec=spec, kw=dict(kw, **build), inputs=steps)


def kalman(r, i, rng, tier):
    spec, kw, steps = traj.scenario(rng, int(rng.integers(len(traj.OPTS))), 5)
    M = len(spec['sj'])
    Zs = [rng.normal(size=M) * 0.02 for _ in steps]
    q, rr = float(10 ** rng.uniform(-6, -2)), float(10 ** rng.uniform(-6, -2))
    SR = bool(rng.random() < 0.4)
    B = rng.normal(size=(M, M)); P0 = q * (B @ B.T + 0.1 * np.eye(M))
    r.sample = dict(workload='filter', square_root=SR, **traj.describe(spec, kw))
    r.seen('filter', SR, bool(spec['orifices'] or spec['weirs'] or spec['pumps']), any(s['bc'] for s in spec['sj']))

    def run(tree, pert):
        m = nets.build(twin.jitter(spec) if pert else spec, cls=tree['nsuperlink'].nSuperLink, **kw)
        sim = tree['simulation'].Simulation(m, dt=steps[0]['dt'], Qcov=q, Rcov=rr, Pxx=P0.copy())
        out = []
        for e, z in zip(twin.perturbed(steps) if pert else steps, Zs):
            k = nets.step_kwargs(e)
            m.step(**k)
            a = {f: k[f] for f in ('u_o', 'u_w', 'u_p') if k.get(f) is not None}
            sim.kalman_filter(np.asarray(m.H_j) + z, dt=e['dt'], SR=SR, **a)
            out.append(dict(H_j=np.array(m.H_j), h_Ik=np.array(m.h_Ik), Q_ik=np.array(m.Q_ik), P=np.array(sim.P_x_k_k)))
        return out
    three(r, 'filter', run, tol=1e-8, spec=spec, kw=kw, inputs=steps, P0=P0, Z=Zs)


def quality(r, i, rng, tier, kind):
    from vlib import oracle
    spec, mix = c22.network(rng, 'controls' if rng.random() < 0.4 else 'plain')
    kw = dict(mobile_elements=False) if spec.get('internals') else {}
    steps = nets.forcing(rng, spec, 5, lateral=rng.random() < 0.4, qmax=0.5)
    ref = oracle.Ref(spec)
    q = c22.quality(rng, spec, 'plain', ref)
    M, NI = ref.M, len(ref.k_I)
    obs = int(rng.integers(M)); pc = int(rng.integers(2)); which = int(rng.integers(3))
    Z = rng.uniform(0, 20, len(steps))
    cs = [(rng.uniform(0, 30, M), rng.uniform(0, 30, NI), rng.uniform(0, 20, M)) for _ in steps]
    r.sample = dict(workload=kind, mix=mix, superjunctions=M)
    r.seen(kind, mix, which if kind == 'assimilate' else None, bool(spec.get('internals')), bool(spec['orifices'] or spec['weirs'] or spec['pumps']))

    def run(tree, pert):
        m = nets.build(spec, cls=tree['nsuperlink'].nSuperLink, **kw)
        tb = c22.tables(q, np.arange(M))
        tb[1]['KF_obs_point'] = obs; tb[1]['KF_process_sigma'] = 0.3; tb[1]['KF_measure_sigma'] = 0.5
        w = tree['nquality'].QualityBuilder(m, tb[0], tb[1], junction_params=tb[2], link_params=tb[3])
        out = []
        for s, (e, c) in enumerate(zip(twin.perturbed(steps) if pert else steps, cs)):
            m.step(**nets.step_kwargs(e))
            w.step(dt=e['dt'], c_0j=c[0].copy(), c_0Ik=c[1].copy(), c_bc=c[2].copy(), Q_0j=np.array(e['Q_in']),
                   Q_0Ik=np.array(e['Q_0Ik']) if 'Q_0Ik' in e else np.zeros(NI))
            o = {f: np.array(getattr(w, f), float) for f in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')}
            if kind == 'assimilate':
                if which == 0:
                    np.random.seed(s)
                    w.Kalman_Filter_WQ1(e['dt'])
                elif which == 1:
                    w.Kalman_Filter_WQ2(np.array([Z[s]]), e['dt'], pc)
                else:
                    A, B = w.KF_Multi_WQ(e['dt'])
                    o.update(A=np.array(A), B=np.array(B))
                if which < 2:
                    o.update(P=np.array(w.P_k), x=np.array(w.x_hat))
            out.append(o)
        return out
    three(r, kind, run, tol=1e-7, spec=spec, quality=q, inputs=steps, sources=cs)


def infiltration(r, i, rng, tier):
    n = int(rng.integers(1, 12))
    P = c21.soils(rng, n)
    nstep = 60
    R = c21.rain(rng, P['Ks'].values, nstep)
    dts = rng.choice([1.0, 15, 60, 300, 900, 3600], nstep)
    r.sample = dict(workload='infiltration', soils=n)
    r.seen('infiltration', n > 1)

    def run(tree, pert):
        g = tree['ninfiltration'].nGreenAmpt(P.assign(psi_f=P['psi_f'] * (1 + 1e-12)) if pert else P)
        out = []
        for s in range(nstep):
            g.step(dt=float(dts[s]), i=R[s] * (1 + (1e-12 if pert else 0)))
            g.d = np.where(g.d < 1e-12, 0.0, g.d)           # rounding residue decides whether the next step is dry
            out.append({f: np.array(getattr(g, f), float) for f in ('F', 'f', 'd', 'T', 'theta_d', 'theta_du', 'is_saturated')})
        return out
    three(r, 'infiltration', run, tol=1e-7, soils=P.to_dict('list'), rain=R, dts=dts)


def functions(r, i, rng, tier):
    import numba
    f8, a8 = numba.float64, numba.float64[:]
    names = sorted(k for k, (a, f) in T.kernels.items() if a.signatures)
    for key in names:
        a, f = T.kernels[key]
        sig = a.signatures[0]
        # (cached or explicit) signatures of scalars, or of equally long vectors
        vec = all(getattr(s, 'ndim', 0) == 1 and s.dtype == f8 for s in sig)
        sca = all(s == f8 for s in sig)
        if not (vec or sca):
            continue
        for _ in range(6):
            x = np.exp(rng.uniform(-5, 2, (len(sig), 7))) * rng.choice([1, 1, 1, 1, -1, 0], (len(sig), 7), p=[.3, .3, .2, .1, .05, .05])
            arg = [v for v in x] if vec else [float(v[0]) for v in x]
            res = []
            for g in (a, f):
                try:
                    ar = [v.copy() for v in arg] if vec else [np.float64(v) for v in arg]
                    o = g(*ar)
                    res.append(('ok', [np.asarray(v, float) for v in (o if isinstance(o, tuple) else (o,))] + (ar if vec else [])))
                except IndexError as e:
                    res.append(('index', str(e)))
                except Exception as e:
                    res.append((type(e).__name__, None))
            r.count('function_calls')
            if 'index' in (res[0][0], res[1][0]):
                r.violate('functions', '%s.%s reads or writes outside its arrays' % key, args=x, got=str(res)[:300])
            if res[1][0] != 'ok' or res[0][0] != 'ok':
                r.count('function_undefined')
                continue
            for u, v in zip(res[0][1], res[1][1]):
                if not np.isfinite(v).all():
                    continue
                sc = 1 + np.abs(v) + np.abs(x).max() ** 2
                r.count('functions', v.size)
                r.check(u.shape == v.shape and (np.abs(u - v) <= 1e-9 * sc).all(), 'functions', '%s.%s: compiled and interpreted results differ' % key,
                        compiled=u, interpreted=v, args=x)
    # transects, storage tables, series, banded matrices
    ng, pg = T.jit['ngeometry'], T.py['ngeometry']
    for _ in range(20):
        n = int(rng.integers(2, 9))
        xp = np.sort(rng.uniform(0, 3, n)); fp = rng.uniform(0, 5, n)
        for meth in (0, 1):
            for x in (-1.0, float(xp[0]), float(xp[-1]), 10.0, float(rng.uniform(0, 3))):
                u, v = ng.interpolate_geometry(x, xp, fp, meth), pg.interpolate_geometry(x, xp, fp, meth)
                r.count('functions')
                r.check(abs(u - v) <= 1e-12 * (1 + abs(v)), 'functions', 'interpolate_geometry: compiled and interpreted differ', x=x, xp=xp, fp=fp, method=meth)
                F = fp[:, None] * np.array([1.0, 2.0])
                u, v = T.jit['nutils'].interpolate_sample(x, xp, F, meth), T.py['nutils'].interpolate_sample(x, xp, F, meth)
                r.check(np.abs(np.asarray(u) - v).max() <= 1e-12 * (1 + np.abs(v).max()), 'functions', 'interpolate_sample: compiled and interpreted differ', x=x, xp=xp, fp=F, method=meth)
                r.count('~interpolate_sample')
    for mod in ('nsuperlink', 'nquality'):
        for _ in range(6):
            n = int(rng.integers(2, 12)); bw = int(rng.integers(1, n))
            l = bw
            A = rng.normal(size=(n, n)) * (np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= bw)
            out = []
            for tree in (T.jit, T.py):
                ab = tree[mod].numba_create_banded(A.copy(), bw, n)
                out.append(np.array(ab))
            r.count('functions', A.size)
            r.check(np.array_equal(*out), 'functions', 'numba_create_banded: compiled and interpreted differ', A=A, bandwidth=bw, got=out)
            want = np.zeros((2 * bw + 1, n))
            for p in range(n):
                for q in range(n):
                    if abs(p - q) <= bw:
                        want[bw + p - q, q] = A[p, q]
            r.check(np.array_equal(out[0], want), 'functions', 'the banded storage does not hold the matrix', A=A, bandwidth=bw, got=out[0])
    r.sample = dict(workload='functions', kernels=len(names))
    r.seen('functions')


def case(r, i, rng, tier):
    kind = KINDS[i % len(KINDS)]
    if i % 100 == 10:
        kind = 'large'
    if kind == 'functions':
        return functions(r, i, rng, tier)
    if kind == 'filter':
        return kalman(r, i, rng, tier)
    if kind in ('quality', 'assimilate'):
        return quality(r, i, rng, tier, kind)
    if kind == 'infiltration':
        return infiltration(r, i, rng, tier)
    hydro(r, i, rng, tier, kind)
