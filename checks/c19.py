"""Traces of trial steps of adaptive stepping, and suggested step sizes, against their specification."""
import copy
import numpy as np
import pandas as pd
from vlib import traj, nets

PROP = 'C19'
N = {'quick': 240, 'thorough': 8000}
NEED = ['advanced', 'fine_state', 'error', 'retried', 'accepted', 'exhausted', 'floor', 'suggest', 'suggest_limit', 'filter', 'filter_limit', 'shrinks', 'grows',
        'plain_step', 'trace']
RULE = ('random networks and series; simulation steps with random sub-divisions, retries, tolerances and norms; a second model '
        'repeats every attempt by hand; step-size suggestions are evaluated at random errors, limits and histories; one '
        'evaluation is one attempt or one suggestion; behaviours are (sub-divisions, attempts, norm, outcome)')
ASSUME = ['attempts whose error is within 1e-9 of the tolerance are not judged for acceptance']
EPS = np.finfo(float).eps


def norm_of(x, norm):
    if norm == 0:
        v = (x != 0).sum() / x.size
    elif norm == 1:
        v = np.abs(x).sum() / x.size
    elif norm == 2:
        v = np.sqrt((x ** 2).mean())
    else:
        v = np.abs(x).max()
    return max(abs(v), EPS)


def stepping(r, i, rng):
    from pipedream_solver.simulation import Simulation
    spec, kw, _ = traj.scenario(rng, int(rng.integers(16)), 1)
    if rng.random() < 0.3:
        kw['auto_permute'] = True
    M = len(spec['sj'])
    m, tw = nets.build(spec, **kw), nets.build(spec, **kw)
    perm = np.asarray(m.permutations)
    bc = np.array([s['bc'] for s in spec['sj']])
    H0 = np.array([s['z_inv'] + s['h_0'] for s in spec['sj']])
    t = np.linspace(0, 600, 13)
    Q = pd.DataFrame(rng.uniform(0, 2.0, (13, M)) * (rng.random((13, M)) < 0.7), index=t)
    Hb = pd.DataFrame(H0 + rng.uniform(0, 0.3, (13, M)), index=t) if bc.any() else None
    min_dt = float(rng.choice([1.0, 1e-3, 6.0]))
    sim = Simulation(m, Q_in=Q, H_bc=Hb, t_start=0.0, dt=20.0, min_dt=min_dt)
    trace, handed = [], []
    real = m.step

    def step(**k):
        trace.append((m.t, k['dt']))
        handed.append((m.t + k['dt'], np.array(k['Q_in'], copy=True), None if k.get('H_bc') is None else np.array(k['H_bc'], copy=True)))
        real(**k)
    m.step = step
    d = dict(spec=spec, kw=kw, min_dt=min_dt)
    r.sample = dict(**traj.describe(spec, kw))

    def at(df, x):
        return None if df is None else np.array([np.interp(x, t, df.values[:, c]) for c in range(M)])[perm]

    def go(model, dt, u):
        x = model.t + dt
        q, b = at(Q, x), at(Hb, x)
        # the last digits of the interpolated inputs are the simulation's own: switches amplify them
        for x_, q_, b_ in handed:
            if abs(x_ - x) < 1e-9 and np.allclose(q, q_, rtol=1e-9, atol=1e-12) and (b is None or np.allclose(b, b_, rtol=1e-12, atol=1e-9)):
                q, b = q_, b_
                break
        model.step(dt=dt, Q_in=q, **({} if b is None else dict(H_bc=b)), **u, banded=model.banded)
    for s in range(12):
        u = {f: rng.random(len(spec[c])) for f, c in (('u_o', 'orifices'), ('u_w', 'weirs'), ('u_p', 'pumps')) if spec[c]}
        sub = int(rng.choice([1, 2, 2, 3, 5])); retries = int(rng.choice([0, 0, 1, 2, 4]))
        tol = float(10 ** rng.uniform(-4, 2)); norm = int(rng.choice([2, 2, 1, -1]))
        dt = float(rng.choice([5.0, 20.0, 40.0, 1.7]))
        m.save_state(); s0 = copy.deepcopy(m.states); a = float(m.t)
        trace.clear(); handed.clear()
        given = rng.random() < 0.7
        if not given:
            dt = sim.dt
        sim.step(**(dict(dt=dt) if given else {}), subdivisions=sub, retries=retries, tol=tol, norm=norm, **u)
        # by hand
        h = dt; attempts = []; left = retries; undecided = False; want_trace = []
        while True:
            tw.load_state(copy.deepcopy(s0))
            want_trace.append((a, h))
            go(tw, h, u)
            if sub == 1:
                err = None
                break
            coarse = tw.H_j.copy()
            tw.load_state(copy.deepcopy(s0))
            for c in range(sub):
                want_trace.append((a + c * h / sub, h / sub))
                go(tw, h / sub, u)
            scale = 1e-6 + 1e-3 * np.maximum(np.abs(tw.H_j), np.abs(tw.states['H_j']))
            err = norm_of((coarse - tw.H_j) / scale, norm)
            attempts.append(err)
            if abs(err - tol) < 1e-9 * max(1, tol):
                undecided = True
            if left and err > tol and h / 2 > min_dt:
                left -= 1; h = h / 2
                r.count('retried')
                continue
            break
        if undecided:
            continue
        dd = dict(step=s, dt=dt, subdivisions=sub, retries=retries, tol=tol, norm=norm, attempts=attempts, trace=list(trace), t=a, **d)
        r.count('plain_step' if sub == 1 else 'accepted' if err <= tol else 'floor' if h / 2 <= min_dt else 'exhausted')
        r.seen(sub, len(attempts), norm, retries, None if err is None else err <= tol)
        ok = len(trace) == len(want_trace) and np.allclose(np.array(trace), np.array(want_trace), rtol=1e-12, atol=1e-9)
        r.check(ok, 'trace', 'trial steps %r; %r follow from the tolerance' % (trace[:12], want_trace[:12]), **dd)
        r.check(abs(m.t - a - h) <= 1e-9 * (1 + a), 'advanced', 'advanced by %r instead of %r' % (m.t - a, h), **dd)
        for f in ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk'):
            x, y = np.asarray(getattr(m, f)), np.asarray(getattr(tw, f))
            r.check(np.allclose(x, y, rtol=1e-8, atol=1e-7), 'fine_state', '%s after the step is not the finely stepped one' % f, sim=x, hand=y, **dd)
        if err is None:
            r.check(sim.err is None, 'error', 'an error of %r is reported for a plain step' % sim.err, **dd)
        else:
            r.check(sim.err is not None and abs(sim.err - err) <= 1e-6 * err + 1e-9, 'error', 'reports an error of %r; the two solutions differ by %r' % (sim.err, err), **dd)
        r.check(abs(sim.dt - h) < 1e-12 * (1 + h) and abs(sim.dts[0] - h) < 1e-12 * (1 + h) and (sim.errs[0] is sim.err or sim.errs[0] == sim.err), 'queue',
                'last step size %r, queue %r, errors %r' % (sim.dt, list(sim.dts), list(sim.errs)), **dd)


def sizes(r, i, rng):
    from pipedream_solver.simulation import Simulation
    spec = nets.rand_net(rng, M=2, extra=0)
    m = nets.build(spec)
    for _ in range(25):
        lo = float(10 ** rng.uniform(-2, 1)); hi = lo * float(10 ** rng.uniform(0, 3))
        rlo = float(10 ** rng.uniform(-3, 0)); rhi = float(10 ** rng.uniform(0, 2)); sf = float(rng.uniform(0.5, 1.0))
        tol = float(10 ** rng.uniform(-3, 1)); dt = float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))
        err = float(rng.choice([10 ** rng.uniform(-8, 6), tol / 2, 0.0, 1e-300, 1e12]))
        sim = Simulation(m, dt=dt, min_dt=lo, max_dt=hi, tol=tol, min_rel_change=rlo, max_rel_change=rhi, safety_factor=sf)
        r.check(sim.compute_step_size() == dt, 'suggest', 'without an error estimate the suggested size is %r' % sim.compute_step_size(), dt=dt)
        args = dict(dt=dt, err=err, min_dt=lo, max_dt=hi, tol=tol, min_rel_change=rlo, max_rel_change=rhi, safety_factor=sf)
        drop = [k for k in ('dt', 'min_dt', 'max_dt', 'tol', 'min_rel_change', 'max_rel_change', 'safety_factor') if rng.random() < 0.4]
        got = sim.compute_step_size(**{k: v for k, v in args.items() if k not in drop})
        e = max(abs(err), EPS)
        want = min(max(sf * dt * min(max(np.sqrt(tol / 2 / e), rlo), rhi), lo), hi)
        info = dict(args=args, omitted=drop, got=got)
        r.check(np.isfinite(got) and lo <= got <= hi, 'suggest_limit', 'suggested %r outside [%r, %r]' % (got, lo, hi), **info)
        r.check(abs(got - want) <= 1e-9 * want, 'suggest', 'suggested %r, formula gives %r' % (got, want), **info)
        if e > tol / 2 and rlo < 1:
            r.check(got <= max(dt, lo) * (1 + 1e-12), 'shrinks', 'error above tolerance but %r > %r' % (got, dt), **info)
        if e < tol / 2 and sf * min(np.sqrt(tol / 2 / e), rhi) > 1:
            r.check(got >= min(dt, hi) * (1 - 1e-12), 'grows', 'error below tolerance but %r < %r' % (got, dt), **info)
        # filtered
        es = [float(10 ** rng.uniform(-6, 4)) for _ in range(3)]; ds = [float(10 ** rng.uniform(np.log10(lo), np.log10(hi))) for _ in range(3)]
        co = [[1, 0, 0, 0, 0], [.5, .5, 0, .5, 0], [1 / 6, 1 / 6, 0, 0, 0], [.25, .5, .25, .75, .25], [1 / 18, 1 / 9, 1 / 18, 0, 0], [1.25, .5, -.75, -.25, -.75], [1 / 3, 1 / 18, -5 / 18, -5 / 6, -1 / 6]][int(rng.integers(7))]
        kk = int(rng.choice([2, 1, 3]))
        how = rng.random()
        if how < 0.5:
            got = sim.filter_step_size(tol=tol, dts=ds, errs=es, coeffs=co, safety_factor=sf, k=kk, **({} if rng.random() < 0.5 else dict(min_dt=lo, max_dt=hi, min_rel_change=rlo, max_rel_change=rhi)))
        else:
            sim.dts.clear(); sim.errs.clear()
            short = rng.random() < 0.2
            for a, b in list(zip(ds, es))[:2 if short else 3]:
                sim.dts.append(a); sim.errs.append(b)
            got = sim.filter_step_size(tol=tol, coeffs=co, safety_factor=sf, k=kk)
            if short:
                r.check(got == ds[0], 'filter', 'with two past steps the suggested size is %r, last was %r' % (got, ds[0]))
                continue
        f = (tol / es[0]) ** (co[0] / kk) * (tol / es[1]) ** (co[1] / kk) * (tol / es[2]) ** (co[2] / kk) * (ds[0] / ds[1]) ** -co[3] * (ds[1] / ds[2]) ** -co[4]
        want = min(max(sf * min(max(f, rlo), rhi) * ds[0], lo), hi)
        info = dict(tol=tol, dts=ds, errs=es, coeffs=co, safety_factor=sf, k=kk, limits=[lo, hi, rlo, rhi], got=got)
        r.check(np.isfinite(got) and lo <= got <= hi, 'filter_limit', 'suggested %r outside [%r, %r]' % (got, lo, hi), **info)
        r.check(abs(got - want) <= 1e-9 * want, 'filter', 'suggested %r, formula gives %r' % (got, want), **info)
        r.seen('sizes', co[0], kk, lo < got < hi, how < 0.5)


def case(r, i, rng, tier):
    (sizes if i % 6 == 5 else stepping)(r, i, rng)
