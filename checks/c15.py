"""Caller data fingerprinted around every call; interleaved models against models run alone."""
import copy
import numpy as np
import pandas as pd
from vlib import traj, nets, twin

PROP = 'C15'
N = {'quick': 200, 'thorough': 6000}
NEED = ['input_kept', 'interleaved', 'shared_tables', 'same_buffers', 'simulation_inputs', 'quality_inputs', 'soil_inputs', 'soil_interleaved']
RULE = ('random networks, tables, soils and quality parameters; every table, dictionary and array handed over is '
        'fingerprinted before and after construction and use; two models are stepped in random interleavings and compared '
        'exactly with the same models stepped alone; one evaluation is one input or one state field at one step')
ASSUME = []


def print_of(x):
    """A comparable fingerprint of a caller's object."""
    if isinstance(x, pd.DataFrame):
        return ('df', tuple(map(str, x.columns)), tuple(map(str, x.index)), str(x.index.dtype), tuple(str(t) for t in x.dtypes),
                tuple(tuple(repr(v) for v in x[c].tolist()) for c in x.columns))
    if isinstance(x, np.ndarray):
        return ('a', str(x.dtype), x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict):
        return ('d', tuple((k, print_of(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(print_of(v) for v in x))
    return ('v', repr(x))


class Keep:
    def __init__(self, r, key, **d):
        self.r, self.key, self.d, self.items = r, key, d, []

    def add(self, name, x):
        self.items.append((name, x, print_of(x)))
        return x

    def verify(self, when):
        for name, x, p in self.items:
            self.r.check(print_of(x) == p, self.key, '%s was changed by %s' % (name, when), **self.d)


def make(spec, kw, keep=None, tabs=None):
    from pipedream_solver.nsuperlink import nSuperLink
    t = dict(tabs or nets.tables(spec))
    if keep:
        for k in t:
            keep.add(k, t[k])
    k = dict(spec['kw']); k.update(kw)
    sl, sj = t.pop('superlinks'), t.pop('superjunctions')
    return nSuperLink(sl, sj, **t, **k)


def state(m):
    return {f: np.array(getattr(m, f), float, copy=True) for f in ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p')
            if getattr(m, f, None) is not None}


def same(r, key, a, b, what, **d):
    for s, (x, y) in enumerate(zip(a, b)):
        for f in x:
            r.count(key, x[f].size)
            if not np.array_equal(x[f], y[f], equal_nan=True):
                r.violate(key, '%s: %s differs after %d steps' % (what, f, s + 1), alone=x[f], together=y[f], **d)


def scen(rng, n=12):
    spec, kw, steps = traj.scenario(rng, int(rng.integers(16)), n)
    if rng.random() < 0.25:
        kw['auto_permute'] = True
    if not spec.get('internals') and rng.random() < 0.3:
        kw['mobile_elements'] = True
    return spec, kw, steps


def advance(m, steps, keep=None, buffers=None):
    out = []
    for e in steps:
        k = nets.step_kwargs(e)
        if buffers is not None:
            for f, v in list(k.items()):
                if isinstance(v, np.ndarray):
                    b = buffers.setdefault(f, np.empty_like(v))
                    b[:] = v
                    k[f] = b
        elif keep:
            keep.items = [t for t in keep.items if not t[0].startswith('step input')]
            for f, v in k.items():
                keep.add('step input %s' % f, v)
        m.step(**k)
        if buffers is not None:
            for b in buffers.values():
                b[:] = np.nan
        out.append(state(m))
        if keep:
            keep.verify('stepping')
    return out


def hydraulics(r, rng, i):
    spec, kw, steps = scen(rng)
    d = dict(spec=spec, kw=kw)
    keep = Keep(r, 'input_kept', **d)
    m = make(spec, kw, keep)
    keep.verify('construction')
    alone = advance(m, steps, keep)
    m.save_state(); s = copy.deepcopy(m.states); keep.add('loaded state', s)
    m.load_state(s); advance(m, steps[:2]); m.spinup(n_steps=2, dt=5.0, **({'H_bc': np.array(steps[0]['H_bc'])} if 'H_bc' in steps[0] else {}))
    if kw.get('mobile_elements'):
        m.reposition_junctions()
    keep.verify('loading, spinning up and stepping')
    # the caller reuses and clears its own arrays
    same(r, 'same_buffers', alone, advance(make(spec, kw), steps, buffers={}), 'inputs passed through reused buffers', steps=steps, **d)
    # two models, from the same or different tables
    shared = bool(rng.random() < 0.5)
    if shared:
        tabs = nets.tables(spec)
        m1, m2 = make(spec, kw, None, tabs), make(spec, kw, None, tabs)
        spec2, kw2, steps2 = spec, kw, nets.forcing(rng, spec, 12, qmax=2.0)
    else:
        spec2, kw2, steps2 = scen(rng)
        m1, m2 = make(spec, kw), make(spec2, kw2)
    alone2 = advance(make(spec2, kw2), steps2)
    a, b = [], []
    order = rng.permutation([0] * 12 + [1] * 12)
    for o in order:
        if o == 0:
            a += advance(m1, [steps[len(a)]])
        else:
            b += advance(m2, [steps2[len(b)]])
    key = 'shared_tables' if shared else 'interleaved'
    same(r, key, alone, a, 'interleaved with another model', steps=steps, other=spec2, order=order, **d)
    same(r, key, alone2, b, 'interleaved with another model (second)', steps=steps2, other=spec2, order=order, **d)
    r.seen('hydraulics', shared, bool(spec['transects']), bool(spec2['transects']), bool(spec['storages']), bool(spec.get('internals')),
           bool(kw.get('auto_permute')), bool(kw.get('mobile_elements')), bool(spec['orifices']), bool(spec['weirs']), bool(spec['pumps']))


def simulation(r, rng, i):
    from pipedream_solver.simulation import Simulation
    spec, kw, _ = scen(rng)
    M = len(spec['sj'])
    keep = Keep(r, 'simulation_inputs', spec=spec, kw=kw)
    m = make(spec, kw, keep)
    t = np.sort(rng.uniform(0, 300, 6)); idx = t if rng.random() < 0.5 else np.unique(t.astype(int))
    n = len(idx)
    Q = keep.add('Q_in', pd.DataFrame(rng.uniform(0, 1, (n, M)), index=idx))
    H0 = np.array([s['z_inv'] + s['h_0'] for s in spec['sj']])
    H = keep.add('H_bc', pd.DataFrame(H0 + rng.uniform(0, 0.2, (n, M)), index=idx)) if any(s['bc'] for s in spec['sj']) else None
    QI = keep.add('Q_Ik', pd.DataFrame(rng.uniform(0, 0.01, (n, nets.nik(spec))), index=idx))
    P, C, Hm, Rc = (keep.add(nm, rng.uniform(0, 1, (M, M)) + np.eye(M)) for nm in ('Pxx', 'C', 'H', 'Rcov'))
    Qc = keep.add('Qcov', rng.uniform(0.1, 1, M))
    n_ctl = {f: len(spec[c]) for f, c in (('u_o', 'orifices'), ('u_w', 'weirs'), ('u_p', 'pumps'))}
    u = {f: keep.add(f, rng.random(n)) for f, n in n_ctl.items() if n}
    with Simulation(m, Q_in=Q, H_bc=H, Q_Ik=QI, dt=float(rng.uniform(5, 20)), Pxx=P, Qcov=Qc, Rcov=Rc, C=C, H=Hm) as sim:
        keep.verify('constructing a simulation')
        for s in range(6):
            sim.step(subdivisions=int(rng.integers(1, 3)), retries=int(rng.integers(0, 2)), **u)
            if s % 2 and not m.bc.any():
                Z = keep.add('Z', np.asarray(m.H_j) + rng.normal(0, 0.01, M))
                Z0 = Z.copy()
                sim.kalman_filter(Z, dt=sim.dt, SR=False, **u)
            sim.record_state()
            keep.verify('simulating')
    keep.verify('leaving a simulation')
    r.seen('simulation', H is not None, bool(kw.get('auto_permute')), str(Q.index.dtype), bool(u))


def quality(r, rng, i):
    from pipedream_solver.nquality import QualityBuilder
    spec = nets.rand_net(rng, shapes=['rect_open', 'circular'], ends=True, extra=0, bc=0, offsets=False)
    kw = {}
    keep = Keep(r, 'quality_inputs', spec=spec)
    m = make(spec, kw, keep)
    M, NK = len(spec['sj']), len(spec['sl'])
    sjp = keep.add('superjunction_params', pd.DataFrame(dict(name=['J%d' % j for j in range(M)], id=np.arange(M), K=rng.uniform(0, 1e-4, M), c_0=rng.uniform(0, 5, M),
                   bc=False, KF_obs_point=False, KF_process_sigma=0.1, KF_measure_sigma=0.1)))
    slp = keep.add('superlink_params', pd.DataFrame(dict(name=['K%d' % k for k in range(NK)], id=np.arange(NK), K=rng.uniform(0, 1e-4, NK), c_0=rng.uniform(0, 5, NK),
                   D=rng.uniform(0, 1, NK), KF_obs_point=False, KF_process_sigma=0.1, KF_measure_sigma=0.1)))
    w = QualityBuilder(m, superjunction_params=sjp, superlink_params=slp)
    keep.verify('building the quality model')
    for s in range(4):
        c0 = keep.add('c_0j', rng.uniform(0, 5, M))
        q = keep.add('Q_in', rng.uniform(0, 1, M))
        cI = keep.add('c_0Ik', rng.uniform(0, 5, nets.nik(spec)))
        m.step(dt=10.0, Q_in=q)
        w.step(dt=10.0, c_0j=c0, Q_0j=q, **({} if s % 2 else dict(c_0Ik=cI)))
        keep.verify('stepping the quality model')
    r.seen('quality', M, NK)


def soil(r, rng, i):
    from pipedream_solver.ninfiltration import nGreenAmpt
    def params():
        n = int(rng.integers(1, 8))
        th = rng.uniform(0.3, 0.5, n)
        return pd.DataFrame(dict(Ks=np.exp(rng.uniform(np.log(1e-7), np.log(3e-5), n)), psi_f=rng.uniform(0.03, 0.4, n), theta_s=th,
                                 theta_i=th * rng.uniform(0.1, 0.9, n), A_s=rng.uniform(10, 1000, n)))
    keep = Keep(r, 'soil_inputs')
    p, q = keep.add('soil parameters', params()), None
    q = p if rng.random() < 0.5 else keep.add('soil parameters', params())
    rain = [(float(rng.uniform(10, 600)), rng.uniform(0, 3e-5, len(p)), rng.uniform(0, 3e-5, len(q))) for _ in range(20)]
    rain = [(dt, a * (rng.random() < 0.7), b * (rng.random() < 0.7)) for dt, a, b in rain]
    F = ('f', 'F', 'd', 'Q', 'theta_d', 'T', 'is_saturated')

    def st(g):
        return {f: np.array(getattr(g, f), float, copy=True) for f in F if getattr(g, f, None) is not None}

    def go(g, w):
        out = []
        for e in rain:
            a = keep.add('rainfall', e[w].copy())
            g.step(i=a, dt=e[0])
            keep.verify('infiltrating')
            out.append(st(g))
            keep.items.pop()
        return out
    A, B = go(nGreenAmpt(p), 1), go(nGreenAmpt(q), 2)
    g, h = nGreenAmpt(p), nGreenAmpt(q)
    keep.verify('building soil models')
    a, b = [], []
    for o in rng.permutation([0] * 20 + [1] * 20):
        if o:
            h.step(i=rain[len(b)][2].copy(), dt=rain[len(b)][0]); b.append(st(h))
        else:
            g.step(i=rain[len(a)][1].copy(), dt=rain[len(a)][0]); a.append(st(g))
    same(r, 'soil_interleaved', A, a, 'soil models interleaved', params=p.to_dict('list'))
    same(r, 'soil_interleaved', B, b, 'soil models interleaved (second)', params=q.to_dict('list'))
    r.seen('soil', len(p), q is p)


def case(r, i, rng, tier):
    k = i % 8
    (hydraulics if k < 5 else simulation if k == 5 else quality if k == 6 else soil)(r, rng, i)
