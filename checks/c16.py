"""Clock, iteration counters and the early stop of fixed-point iteration."""
import copy
import numpy as np
from vlib import traj, nets

PROP = 'C16'
N = {'quick': 300, 'thorough': 9000}
NEED = ['advanced', 'counted', 'stopped_early', 'ran_all', 'iterated_state', 'spinup', 'default_dt', 'no_iteration', 'kalman_clock', 'sim_clock']
RULE = ('random networks and random histories of steps (explicit and default time steps, 1 to 6 iterations, random head '
        'tolerances, every solution route), spin-ups and simulation steps; one evaluation is one call; behaviours are '
        '(call, iterations asked, iterations done, route)')
ASSUME = ['the number of iterations done is judged by repeating the same iterations one at a time on a second model']


def manual(m, k, n):
    """Heads after each of n single iterations of one step."""
    m.step(**k, num_iter=1)
    t = [m.t]
    out = [(m.H_j.copy(), np.array(m.Q_ik), np.array(m.h_Ik))]
    for _ in range(n - 1):
        m.step(**k, num_iter=1, first_iter=False)
        out.append((m.H_j.copy(), np.array(m.Q_ik), np.array(m.h_Ik)))
    return out


def case(r, i, rng, tier):
    spec, kw, steps = traj.scenario(rng, int(rng.integers(16)), 14)
    if rng.random() < 0.3:
        kw['auto_permute'] = True
    kw['method'] = str(rng.choice(['b', 'b', 'f', 'lsq', 'nnls']))
    ddt = float(rng.choice([1.0, 7.5, 60.0]))
    kw['dt'] = ddt
    m, twin = nets.build(spec, **kw), nets.build(spec, **kw)
    d = dict(spec=spec, kw=kw)
    bw = getattr(m, 'bandwidth', None)
    r.sample = dict(**traj.describe(spec), kw={k: v for k, v in kw.items()})
    count = m.iter_count
    t = m.t
    r.check(t == 0 and count == 0, 'start', 'a new model starts at t=%r, iteration %r' % (t, count), **d)
    for s, e in enumerate(steps):
        k = nets.step_kwargs(e)
        given = rng.random() < 0.7
        if not given:
            k.pop('dt')
        dt = k.get('dt', ddt)
        n = int(rng.choice([1, 1, 2, 3, 6]))
        tol = float(rng.choice([0.0015, 1e-4, 0.02, 0.2, 0.0]))
        m.save_state()
        twin.load_state(copy.deepcopy(m.states))
        H0 = m.H_j.copy()
        banded = bool(rng.random() < 0.5) and bw is not None and kw.get('auto_permute')
        extra = dict(banded=True) if banded else {}
        m.step(**k, num_iter=n, **(dict(head_tol=tol) if tol != 0.0015 else {}), **extra)
        scale = 1e-11 * (1 + abs(t) + dt)
        r.check(abs(m.t - (t + dt)) <= scale, 'advanced', 'time went from %r to %r in a step of %r s with %d iterations' % (t, m.t, dt, n),
                step=s, inputs=e, **d)
        if not given:
            r.count('default_dt')
        r.check(m.iter_count == count + 1, 'counted', 'iteration count went from %r to %r in one step (%d iterations)' % (count, m.iter_count, n), step=s, **d)
        el = m.iter_elapsed
        ref = manual(twin, dict(k, **extra), n)
        dH = [np.abs(ref[0][0] - H0).max()] + [np.abs(ref[j][0] - ref[j - 1][0]).max() for j in range(1, n)]
        want = next((j + 1 for j in range(n) if dH[j] < tol), n)
        if n == 1:
            r.count('no_iteration')
        near = any(abs(v - tol) < 1e-9 for v in dH)
        if not near and n > 1:
            r.count('stopped_early' if want < n else 'ran_all')
            r.check(el == want, 'iterations', 'did %r iterations; heads first change by less than %g at %d of %d' % (el, tol, want, n), changes=dH, step=s, **d)
        if 1 <= el <= n:
            a = ref[el - 1]
            for f, v in zip(('H_j', 'Q_ik', 'h_Ik'), a):
                r.check(np.array_equal(np.asarray(getattr(m, f)), v), 'iterated_state', '%s after %d iterations differs from iterating one at a time' % (f, el),
                        together=getattr(m, f), one_by_one=v, step=s, inputs=e, **d)
        else:
            r.violate('iterations', 'did %r of %d iterations' % (el, n), **d)
        r.seen('step', n, el, kw['method'], bool(banded), given, tol)
        t, count = m.t, m.iter_count
    # spin-up
    n, dt = int(rng.integers(0, 12)), float(rng.choice([1.0, 10.0, 3.3]))
    reset = bool(rng.random() < 0.5)
    q = dict(Q_in=np.full(len(spec['sj']), 1e-6)) if rng.random() < 0.5 else dict(Q_in=rng.uniform(0, 0.1, len(spec['sj'])))
    bc = {'H_bc': k['H_bc']} if 'H_bc' in k else {}
    m.save_state(); twin.load_state(copy.deepcopy(m.states))
    arg = dict(q) if not np.all(q['Q_in'] == 1e-6) else {}
    m.spinup(n_steps=n, dt=dt, reset_counters=reset, **arg, **bc)
    for _ in range(n):
        twin.step(dt=dt, Q_in=q['Q_in'], Q_0Ik=np.full(nets.nik(spec), 1e-6), **bc)
    r.check(np.array_equal(m.H_j, twin.H_j) and np.array_equal(np.asarray(m.Q_ik), np.asarray(twin.Q_ik)), 'spinup',
            'spin-up of %d steps differs from the same steps made one by one' % n, **d)
    if reset:
        r.check(m.t == 0 and m.iter_count == 0, 'spinup', 'counters after a resetting spin-up: t=%r, %r' % (m.t, m.iter_count), **d)
    else:
        r.check(abs(m.t - (t + n * dt)) <= 1e-9 * (1 + t + n * dt) and m.iter_count == count + n, 'spinup',
                'spin-up of %d x %g s moved t from %r to %r and the count from %r to %r' % (n, dt, t, m.t, count, m.iter_count), **d)
    r.seen('spinup', n == 0, reset, bool(arg))
    # simulation clock, and assimilation that repeats the last step
    from pipedream_solver.simulation import Simulation
    t0 = float(rng.choice([0.0, 100.0, -50.0]))
    sim = Simulation(m, t_start=t0, dt=5.0)
    r.check(sim.t == m.t == t0, 'sim_clock', 'simulation starts at %r, not %r' % (sim.t, t0), **d)
    u = {f: v for f, v in k.items() if f.startswith('u_')}
    for _ in range(3):
        a, c = sim.t, m.iter_count
        dt = float(rng.uniform(0.5, 20))
        sim.step(dt=dt, **u, **bc)
        r.check(abs(sim.t - a - dt) <= 1e-11 * (1 + abs(a) + dt) and sim.t == m.t, 'sim_clock', 'a simulation step of %r s moved t from %r to %r' % (dt, a, sim.t), **d)
        if not m.bc.any():
            c, a = m.iter_count, m.t
            sim.kalman_filter(np.asarray(m.H_j).copy(), dt=dt, Rcov=1e-2 * np.eye(m.M), Qcov=np.eye(m.M), **u)
            r.check(m.iter_count == c and abs(m.t - a) <= 1e-11 * (1 + abs(a) + dt), 'kalman_clock',
                    'an assimilation moved t from %r to %r, the count from %r to %r' % (a, m.t, c, m.iter_count), **d)
