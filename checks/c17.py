"""Inputs handed to the model during simulations against independently interpolated series."""
import copy
import numpy as np
import pandas as pd
from vlib import traj, nets

PROP = 'C17'
N = {'quick': 260, 'thorough': 8000}
NEED = ['inflow', 'boundary', 'lateral', 'before_span', 'after_span', 'at_sample', 'inside', 'permuted', 'overridden', 'substep', 'settings',
        'boundary_in_effect', 'inflow_in_effect', 'absent', 'start_time']
RULE = ('random networks with random inflow, boundary-head and lateral-inflow series (regular, irregular, integer times, '
        'one to many samples, starting before or after the simulation), both interpolation methods, sub-stepped and '
        'retried steps; one evaluation is one series value handed to the model; behaviours are (series, method, place in span, permuted)')
ASSUME = ['at a time half-way between two samples the nearest sample may be either']


def series(rng, n, lo, hi, span):
    k = int(rng.choice([1, 2, 3, 8, 20]))
    kind = str(rng.choice(['regular', 'irregular', 'integer']))
    if kind == 'regular':
        t = np.linspace(span[0], span[1], k)
    elif kind == 'irregular':
        t = np.sort(rng.uniform(span[0], span[1], k))
    else:
        t = np.unique(rng.integers(int(span[0]), int(span[1]) + 1, k))
    return pd.DataFrame(rng.uniform(lo, hi, (len(t), n)), index=t)


def expect(df, t, method):
    """Set of acceptable values (rows) at t."""
    x = df.index.values.astype(float)
    v = df.values
    if t <= x[0]:
        return [v[0]], 'before_span' if t < x[0] else 'at_sample'
    if t >= x[-1]:
        return [v[-1]], 'after_span' if t > x[-1] else 'at_sample'
    where = 'at_sample' if (x == t).any() else 'inside'
    if method == 'linear':
        return [np.array([np.interp(t, x, v[:, c]) for c in range(v.shape[1])])], where
    d = np.abs(x - t)
    return [v[j] for j in np.flatnonzero(d <= d.min() + 1e-9)], where


def case(r, i, rng, tier):
    from pipedream_solver.simulation import Simulation
    spec, kw, _ = traj.scenario(rng, int(rng.integers(16)), 1, **(dict(M=int(rng.integers(3, 12))) if i % 2 else {}))
    if i % 2:
        kw['auto_permute'] = True
    M, nI = len(spec['sj']), nets.nik(spec)
    m = nets.build(spec, **kw)
    perm = np.asarray(m.permutations)
    bc = np.array([s['bc'] for s in spec['sj']])
    z = np.array([s['z_inv'] for s in spec['sj']])
    H0 = np.array([s['z_inv'] + s['h_0'] for s in spec['sj']])
    top = np.array([s['z_inv'] + s['max_depth'] for s in spec['sj']])[perm]
    span = (0.0, float(rng.choice([50, 300, 1000])))
    Q = series(rng, M, 0, 1.0, span) if rng.random() < 0.8 else None
    Hb = None
    if bc.any():
        Hb = series(rng, M, 0, 0.3, span); Hb += H0
    QI = series(rng, nI, 0, 0.01, span) if rng.random() < 0.5 else None
    method = str(rng.choice(['linear', 'nearest', 'Linear', 'NEAREST']))
    t0 = None if rng.random() < 0.4 else float(rng.choice([0.0, span[1] / 3, span[1] * 0.9, -40.0]))
    dt = float(rng.choice([5.0, 12.5, 25.0]))
    d = dict(spec=spec, kw=kw, Q_in=None if Q is None else Q.to_dict('split'), H_bc=None if Hb is None else Hb.to_dict('split'),
             Q_Ik=None if QI is None else QI.to_dict('split'), method=method, t_start=t0)
    r.sample = dict(method=method, permuted=bool((perm != np.arange(M)).any()), samples=[None if s is None else len(s) for s in (Q, Hb, QI)])
    calls = []
    real = m.step

    def step(**k):
        t = m.t
        seen = {f: None if v is None else np.array(v, copy=True) if not np.isscalar(v) else v for f, v in k.items()}
        real(**k)
        calls.append((t, seen, m.H_j.copy(), np.array(m.A_sj)))
    m.step = step
    sim = Simulation(m, Q_in=Q, H_bc=Hb, Q_Ik=QI, t_start=t0, dt=dt, interpolation_method=method)
    every = [s for s in (Q, Hb, QI) if s is not None]
    want = t0 if t0 is not None else (min(float(s.index.min()) for s in every) if every else 0.0)
    r.check(sim.t == want, 'start_time', 'simulation starts at %r instead of %r' % (sim.t, want), **d)
    if every:
        last = max(float(s.index.max()) for s in every)
        r.check(float(sim.t_end) == last, 'end_time', 'simulation ends at %r instead of %r' % (sim.t_end, last), **d)
    for s in range(14):
        u = {f: rng.random(len(spec[c])) for f, c in (('u_o', 'orifices'), ('u_w', 'weirs'), ('u_p', 'pumps')) if spec[c]}
        over = {}
        if rng.random() < 0.15:
            over['Q_in'] = rng.uniform(0, 0.5, M)
        if rng.random() < 0.15 and bc.any():
            over['H_bc'] = (H0 + rng.uniform(0, 0.3, M))[perm]
        if rng.random() < 0.15:
            over['Q_Ik'] = rng.uniform(0, 0.01, nI)
        sub = int(rng.choice([1, 1, 2, 4]))
        h = None if rng.random() < 0.4 else float(rng.choice([5.0, 25.0, 7.3]))
        if rng.random() < 0.3 and Q is not None and len(Q) > 1:
            later = Q.index.values[Q.index.values > sim.t + 1]
            if len(later):
                h = float(later[0] - sim.t)          # land on a sample
        calls.clear()
        cur_dt = sim.dt if h is None else h
        a = sim.t
        sim.step(**({} if h is None else dict(dt=h)), subdivisions=sub, retries=int(rng.integers(0, 2)) if sub > 1 else 0, **u, **over)
        nm = method.lower()
        for c, (t, k, Hn, A) in enumerate(calls):
            tn = t + k['dt']
            for key, df, arg, idx in (('inflow', Q, 'Q_in', perm), ('boundary', Hb, 'H_bc', perm), ('lateral', QI, 'Q_0Ik', np.arange(nI))):
                got = k.get(arg)
                name = 'Q_Ik' if arg == 'Q_0Ik' else arg
                if name in over:
                    r.check(got is not None and np.array_equal(got, over[name]), 'overridden', 'an explicit %s did not reach the model' % name, got=got, given=over[name], **d)
                elif df is None:
                    r.check(got is None, 'absent', 'the model was handed a %s nobody gave' % name, got=got, **d)
                else:
                    opts, where = expect(df, tn, nm)
                    ok = got is not None and np.shape(got) == np.shape(opts[0][idx]) and any(
                        np.allclose(got, o[idx], rtol=1e-9, atol=1e-9 * (1 + np.abs(o).max())) for o in opts)
                    r.count(key, len(idx)); r.count(where)
                    if (idx != np.arange(len(idx))).any():
                        r.count('permuted', len(idx))
                    if c > 0:
                        r.count('substep')
                    r.seen(key, nm, where, bool((idx != np.arange(len(idx))).any()), c > 0, len(df) > 1)
                    if not ok:
                        r.violate(key, '%s at t=%r (step of %r from %r): handed %r, series gives %r (%s)' % (name, tn, k['dt'], t, got, opts[0][idx], where), **d)
            for f, v in u.items():
                r.check(k.get(f) is not None and np.array_equal(k[f], v), 'settings', 'setting %s did not reach the model' % f, got=k.get(f), given=v, **d)
            # in effect: boundary junctions stand at their prescribed heads
            b = np.asarray(m.bc)
            if k.get('H_bc') is not None and b.any():
                r.check((np.abs(Hn[b] - np.minimum(k['H_bc'], top)[b]) < 1e-9).all(), 'boundary_in_effect', 'boundary heads %r, prescribed %r' % (Hn[b], k['H_bc'][b]), **d)
                r.check(np.array_equal(b, bc[perm]), 'boundary_in_effect', 'boundary flags are not those of the permuted junctions', **d)
    # inflow in effect: against the unpermuted model stepped by hand with the original columns
    m1 = nets.build(spec, **{k: v for k, v in kw.items() if k != 'auto_permute'})
    m2 = nets.build(spec, **kw)
    s2 = Simulation(m2, Q_in=Q, H_bc=Hb, Q_Ik=QI, dt=dt, t_start=t0, interpolation_method=method)
    for s in range(3):
        tn = s2.t + dt
        a = {'Q_in': None if Q is None else expect(Q, tn, method.lower()), 'H_bc': None if Hb is None else expect(Hb, tn, method.lower()),
             'Q_0Ik': None if QI is None else expect(QI, tn, method.lower())}
        if any(v is not None and len(v[0]) > 1 for v in a.values()):
            return
        m1.step(dt=dt, **{f: None if v is None else v[0][0].copy() for f, v in a.items()})
        s2.step()
        r.check(np.abs(m2.H_j - m1.H_j[perm]).max() < 1e-6 * (1 + np.abs(H0).max()), 'inflow_in_effect',
                'heads in the simulation differ from a model stepped by hand after %d steps' % (s + 1), sim=m2.H_j, hand=m1.H_j[perm], **d)
