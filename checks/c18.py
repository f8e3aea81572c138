"""Recorded tables against the states observed when they were recorded."""
import copy
import numpy as np
import pandas as pd
from vlib import traj, nets

PROP = 'C18'
N = {'quick': 240, 'thorough': 8000}
NEED = ['row', 'initial_row', 'times', 'labels', 'by_name', 'after_assimilation', 'after_retry', 'after_spinup', 'not_recorded', 're_recorded']
RULE = ('random simulations with fixed, sub-stepped and retried steps, assimilation, spin-up before, skipped recordings and '
        'extra trial steps; every recorded value is one evaluation; behaviours are (variable, model options, history)')
ASSUME = ['columns of internal elements are positional', 'a second recording at the same time replaces the first (the state after a correction is the result)']


def case(r, i, rng, tier):
    from pipedream_solver.simulation import Simulation
    from pipedream_solver.nsuperlink import nSuperLink
    spec, kw, _ = traj.scenario(rng, int(rng.integers(16)), 1, **(dict(M=int(rng.integers(3, 12))) if i % 2 else {}))
    if i % 2:
        kw['auto_permute'] = True
    elif not spec.get('internals') and rng.random() < 0.4:
        kw['mobile_elements'] = True
    M, NK = len(spec['sj']), len(spec['sl'])
    T = nets.tables(spec)
    named = rng.random() < 0.7
    jn = ['n%d' % v for v in rng.permutation(100)[:M]]; kn = ['s%d' % v for v in rng.permutation(100)[:NK]]
    if named:
        T['superjunctions']['name'] = jn; T['superlinks']['name'] = kn
    else:
        T['superjunctions'] = T['superjunctions'].drop(columns='name'); T['superlinks'] = T['superlinks'].drop(columns='name')
        jn, kn = list(range(M)), list(range(NK))
    k = dict(spec['kw']); k.update(kw)
    sl, sj = T.pop('superlinks'), T.pop('superjunctions')
    m = nSuperLink(sl, sj, **T, **k)
    perm = np.asarray(m.permutations)
    bc = np.array([s['bc'] for s in spec['sj']])
    H0 = np.array([s['z_inv'] + s['h_0'] for s in spec['sj']])
    bcw = dict(H_bc=H0[perm]) if bc.any() else {}
    pre = int(rng.choice([0, 0, 3]))
    hist = []
    if pre:
        if rng.random() < 0.5:
            m.spinup(n_steps=pre, dt=5.0, **bcw)
        else:
            for _ in range(pre):
                m.step(dt=5.0, **bcw)
        hist.append('spinup')
    t = np.linspace(0, 400, 6)
    Q = pd.DataFrame(rng.uniform(0, 1, (6, M)), index=t)
    t0 = None if rng.random() < 0.6 else float(rng.choice([0.0, 33.25, 120.0]))
    dt = float(rng.choice([5.0, 10.0, 1.0 / 3.0, 0.1]))
    d = dict(spec=spec, kw=kw, pre=pre, t_start=t0, dt=dt)
    r.sample = dict(**traj.describe(spec), pre=pre, dt=dt)
    obs = {}
    names = ['H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik'] + [q for q, c in (('Q_o', 'orifices'), ('Q_w', 'weirs'), ('Q_p', 'pumps')) if spec[c]]

    def look():
        return {f: np.array(getattr(m, f), float, copy=True) for f in names}
    heads = {}
    with Simulation(m, Q_in=Q, H_bc=None, t_start=t0, dt=dt, min_dt=1e-3) as sim:
        obs[float(m.t)] = look()
        first = float(m.t)
        if pre:
            r.count('after_spinup')
        skipped = 0
        for s in range(int(rng.integers(4, 16))):
            u = {f: rng.random(len(spec[c])) for f, c in (('u_o', 'orifices'), ('u_w', 'weirs'), ('u_p', 'pumps')) if spec[c]}
            a = str(rng.choice(['plain', 'plain', 'sub', 'retry', 'assim', 'trial', 'move']))
            sub = dict(subdivisions=2) if a == 'sub' else dict(subdivisions=2, retries=2, tol=1e-4) if a == 'retry' else {}
            if a == 'trial':
                back = copy.deepcopy(m.states)
                m.save_state(); back = copy.deepcopy(m.states)
                sim.step(dt=dt * 3, **u, **bcw)
                sim.load_state(back)
            redo = rng.random() < 0.25
            if redo:
                m.save_state(); before = copy.deepcopy(m.states)
            sim.step(**(dict(dt=dt) if a == 'retry' or rng.random() < 0.5 else {}), **sub, **u, **bcw)
            if redo:
                # the step is recorded, taken back and taken again with other inflows
                sim.record_state()
                obs[float(m.t)] = look()
                tt = float(m.t); t_before = float(before['t'])
                sim.load_state(before)
                sim.step(dt=tt - t_before, Q_in=rng.uniform(0, 1, M), **bcw)
                if float(m.t) != tt:
                    obs[float(m.t)] = look()
                sim.record_state()
                obs[float(m.t)] = look()
                r.count('re_recorded')
            if a == 'retry':
                r.count('after_retry')
            if a == 'assim' and not m.bc.any():
                if rng.random() < 0.5:
                    sim.record_state()
                    again = True
                else:
                    again = False
                sim.kalman_filter(np.asarray(m.H_j) + rng.normal(0, 0.01, M), dt=sim.dt, Rcov=1e-3 * np.eye(M), Qcov=1e-3 * np.eye(M), **u)
                r.count('after_assimilation')
                if again:
                    # recorded before and after the correction: the corrected state is the record
                    sim.record_state()
                    obs[float(m.t)] = look()
                    r.count('re_recorded')
            if a == 'move' and kw.get('mobile_elements'):
                m.reposition_junctions()
            hist.append(a)
            if rng.random() < 0.2:
                skipped += 1
                continue
            sim.record_state()
            obs[float(m.t)] = look()
            if rng.random() < 0.2:
                sim.record_state()
    times = sorted(obs)
    r.count('not_recorded', skipped)
    # more stepping after the record is closed must not change it
    for _ in range(2):
        m.step(dt=3.0, **bcw)
    for f in names:
        df = getattr(sim.states, f, None)
        if df is None:
            r.violate('labels', '%s was not recorded' % f, **d)
        r.check(isinstance(df, pd.DataFrame), 'labels', '%s is not a table after leaving the simulation' % f, **d)
        ix = df.index.values.astype(float)
        r.check(np.array_equal(ix, np.array(times)), 'times', '%s is recorded at %r; recordings were made at %r' % (f, ix[:6], times[:6]), history=hist, **d)
        r.check((np.diff(ix) > 0).all(), 'times', 'times of %s do not increase' % f, **d)
        for row, tt in enumerate(times):
            want = obs[tt][f]
            got = df.values[row].astype(float)
            key = 'initial_row' if tt == first else 'row'
            r.count(key, want.size)
            if not np.array_equal(got, want, equal_nan=True):
                r.violate(key, '%s recorded at t=%r is not the state then' % (f, tt), recorded=got, state=want, history=hist, **d)
        r.seen(f, bool((perm != np.arange(M)).any()), named, pre, bool(kw.get('mobile_elements')), len(times) > 2)
    # labels: original names, whatever the internal order
    H, U = sim.states.H_j, sim.states.Q_uk
    r.check(sorted(map(str, H.columns)) == sorted(map(str, jn)), 'labels', 'heads are labelled %r' % list(H.columns)[:8], names=jn, **d)
    for f in ('Q_uk', 'Q_dk'):
        r.check([str(c) for c in getattr(sim.states, f).columns] == [str(v) for v in kn], 'labels', '%s labelled %r' % (f, list(getattr(sim.states, f).columns)[:8]), names=kn, **d)
    for p, c in enumerate(H.columns):
        j = [str(v) for v in jn].index(str(c))
        r.check(j == perm[p], 'by_name', 'column %r holds the head of junction %r' % (c, jn[int(perm[p])]), **d)
    # by name, against an unpermuted model driven the same way
    m1 = nets.build(spec, **{k: v for k, v in kw.items() if k != 'auto_permute'})
    m2 = nSuperLink(sl, sj, **T, **k)
    b1 = dict(H_bc=H0) if bc.any() else {}
    b2 = dict(H_bc=H0[perm]) if bc.any() else {}
    q = rng.uniform(0, 1, M)
    with Simulation(m2, dt=5.0) as s2:
        for _ in range(3):
            m1.step(dt=5.0, Q_in=q, **b1)
            s2.step(Q_in=q[perm], **b2)
            s2.record_state()
    last = s2.states.H_j.iloc[-1]
    for j, nme in enumerate(jn):
        r.check(abs(float(last[nme]) - m1.H_j[j]) < 1e-6 * (1 + abs(m1.H_j[j])), 'by_name', 'recorded head of %r is not that of the junction of that name' % nme,
                recorded=float(last[nme]), hand=m1.H_j[j], **d)
