"""Exported state-space systems and assimilation results against an independent reference filter."""
import numpy as np
from vlib import traj, nets, oracle

PROP = 'C20'
N = {'quick': 300, 'thorough': 9000}
NEED = ['system', 'semi_implicit', 'filter_heads', 'filter_covariance', 'innovation_covariance', 'zero_gain', 'exact_sensors',
        'covariance_psd', 'square_root', 'unclamped', 'clamped', 'flows_after', 'clock', 'configured', 'partial_sensors', 'reduced_noise']
RULE = ('random networks (with and without controls, boundaries, permutation, banded solve) stepped and assimilated for '
        'several steps with random sensor layouts, noise covariances (constructor defaults, scalars, diagonals, matrices, '
        'per-call) and both filter forms; one evaluation is one component of heads or covariance; behaviours are '
        '(configuration source, form, sensors, boundary, controls)')
ASSUME = ['the square-root form is used with positive definite covariances, as its factorisations require']


def spd(rng, n, scale):
    B = rng.normal(size=(n, n)) / np.sqrt(n)
    return scale * (B @ B.T + 0.1 * np.eye(n))


def cov(rng, n, scale):
    """(argument, matrix) in one of the accepted forms."""
    k = int(rng.integers(3))
    if k == 0:
        return float(scale), scale * np.eye(n)
    if k == 1:
        v = scale * rng.uniform(0.2, 2, n)
        return v, np.diag(v)
    P = spd(rng, n, scale)
    return P, P


def case(r, i, rng, tier):
    from pipedream_solver.simulation import Simulation
    force = dict(M=int(rng.integers(3, 9))) if i % 3 == 0 else {}
    spec, kw, steps = traj.scenario(rng, int(rng.integers(16)), int(rng.integers(5, 9)), **force)
    if i % 3 == 0:
        kw['auto_permute'] = True
    m = nets.build(spec, **kw)
    M = m.M
    perm = np.asarray(m.permutations)
    z = np.array([s['z_inv'] for s in spec['sj']])[perm]
    top = np.array([s['z_inv'] + s['max_depth'] for s in spec['sj']])[perm]
    bc = np.array([bool(s['bc']) for s in spec['sj']])[perm]
    ctl = bool(spec['orifices'] or spec['weirs'] or spec['pumps'])
    source = str(rng.choice(['default', 'constructor', 'call', 'mixed']))
    nb = M if source == 'default' else int(rng.integers(1, M + 1))
    rows = np.sort(rng.choice(M, nb, replace=False))
    Hm = np.eye(M)[rows]
    if rng.random() < 0.3 and source != 'default':
        Hm = Hm * rng.uniform(0.5, 2, (nb, 1))
    Hm_is = nb == M and np.array_equal(Hm, np.eye(M))
    q, rr = float(10 ** rng.uniform(-6, -2)), float(10 ** rng.uniform(-6, -2))
    kind = str(rng.choice(['plain', 'plain', 'zero', 'exact']))
    if kind == 'zero':
        rr = 1e12
    na = M
    Cm = np.eye(M)
    if source in ('constructor', 'call') and rng.random() < 0.4:
        na = int(rng.integers(1, M + 1))
        Cm = rng.normal(size=(M, na))
        r.count('reduced_noise')
    Qa, Qm = cov(rng, na, q)
    if na != M:
        Qa = Qm
    Ra, Rm = cov(rng, nb, rr)
    if kind == 'exact':
        Rm = np.zeros((nb, nb)); Ra = Rm
    if nb != M and np.isscalar(Ra):
        Ra = Rm
    if source == 'default' and not np.isscalar(Qa) and Qa.ndim == 1 and rng.random() < 0.5:
        Qa = Qm
    SR = bool(rng.random() < 0.4) and kind == 'plain' and na == M
    P0 = spd(rng, M, q) if rng.random() < 0.5 or na != M else None
    if kind == 'exact' and na != M and nb > 1:
        # perfect sensors need a prior that is positive along them
        na = M; Cm = np.eye(M); Qa, Qm = cov(rng, M, q)
    ckw, callkw = {}, {}
    if source == 'default':
        ckw = dict(Qcov=Qa, Rcov=Ra)
    elif source == 'constructor':
        ckw = dict(Qcov=Qa if na == M else Qm, Rcov=Ra if nb == M else Rm, H=Hm, C=Cm)
        # one-row matrices are indistinguishable from diagonals
        for f in list(ckw):
            a = ckw[f]
            if not np.isscalar(a) and a.ndim == 2 and a.shape[0] == a.size:
                callkw[f] = ckw.pop(f)
    elif source == 'call':
        callkw = dict(Qcov=Qm, Rcov=Rm, H=Hm, C=Cm)
    else:
        ckw = dict(Qcov=Qa)
        callkw = dict(Rcov=Rm, H=Hm)
    if P0 is not None and source != 'call':
        ckw['Pxx'] = P0
    sim = Simulation(m, dt=steps[0]['dt'], **ckw)
    if P0 is not None:
        P = P0.copy()
    elif 'Qcov' in ckw:
        P = (ckw.get('C', np.eye(M)) if not np.isscalar(ckw.get('C', 1.0)) else np.eye(M)) @ Qm @ (ckw.get('C', np.eye(M))).T
        P = P if P.shape == (M, M) else None
    else:
        P = np.zeros((M, M))
    if P is None:
        P = Cm @ Qm @ Cm.T
    first = P0 is not None and source == 'call'
    if SR and np.linalg.eigvalsh(P).min() <= 0:
        P = spd(rng, M, q); first = True
    r.check(first or np.allclose(sim.P_x_k_k, P, rtol=1e-9, atol=1e-15), 'configured',
            'initial covariance is not the configured one', got=sim.P_x_k_k, expected=P, spec=spec, source=source)
    r.count('configured')
    r.sample = dict(source=source, kind=kind, sensors=nb, of=M, square_root=SR, **traj.describe(spec, kw))
    ref = oracle.Ref(spec, min_depth=kw.get('min_depth', 1e-5), inertial_damping=kw.get('inertial_damping', False))
    ident = (perm == np.arange(M)).all()
    skip = int(rng.integers(0, 3))
    for n, e in enumerate(steps):
        d = dict(spec=spec, kw=kw, steps=steps[:n + 1], source=source, kind=kind, SR=SR, step=n)
        k = nets.step_kwargs(e)
        for f in ('Q_in', 'H_bc'):
            if k.get(f) is not None:
                k[f] = np.asarray(k[f], float)[perm]
        Qin = np.zeros(M) if k.get('Q_in') is None else np.asarray(k['Q_in'], float)
        Hp = np.array(m.H_j, float)
        if kw.get('auto_permute') and m.banded and rng.random() < 0.5:
            k['banded'] = True
        old = oracle.snap(m)
        m.step(**k)
        dt = e['dt']
        A1, A2, D, Hn, Hprev, Qe = m.state_space_system(_dt=dt)
        A1, A2, D = np.array(A1, float), np.array(A2, float), np.array(D, float)
        r.check(np.array_equal(Hprev, Hp) and np.array_equal(Hn, m.H_j) and np.allclose(Qe, Qin, atol=0), 'system',
                'exported heads or inflow are not those of the step', Hprev=Hprev, expected=Hp, Q=Qe, Q_in=Qin, **d)
        b = A2 @ Hp + Qin + D
        if bc.any():
            b[bc] = np.asarray(k['H_bc'], float)[bc] if k.get('H_bc') is not None else Hp[bc]
        x = np.linalg.solve(A1, b)
        sc = 1 + np.abs(x).max()
        want = np.clip(x, z, top)
        r.count('system', M)
        r.count('unclamped' if (want == x).all() else 'clamped')
        r.seen(source, SR, kind, nb == M, bool(bc.any()), ctl)
        r.check(np.allclose(m.H_j, want, rtol=0, atol=1e-7 * sc), 'system',
                'the exported system does not give the heads of the step', heads=m.H_j, solved=x, **d)
        B1, B2, bb = m._semi_implicit_system(_dt=dt)
        r.count('semi_implicit', M)
        r.check(np.allclose(np.linalg.solve(np.array(B1, float), np.array(bb, float)), x, rtol=0, atol=1e-7 * sc) and np.allclose(B2, A2),
                'semi_implicit', 'the assembled system differs from the exported one', b=bb, expected=b, **d)
        if n < skip:
            if ident:
                new = oracle.snap(m)
                ref.advance(ref.residuals(old, old, new, e, dt))
            continue
        # ---- assimilation
        Pm = np.linalg.solve(A1, A2 @ P)
        Pm = np.linalg.solve(A1, A2 @ Pm.T).T
        Pm = 0.5 * (Pm + Pm.T) + Cm @ Qm @ Cm.T
        S = Hm @ Pm @ Hm.T + Rm
        if np.linalg.cond(S) > 1e8 or (SR and np.linalg.cond(P) > 1e8):
            r.count('ill_conditioned')
            break
        Lg = np.linalg.solve(S, Hm @ Pm).T
        P2 = (np.eye(M) - Lg @ Hm) @ Pm
        Z = Hm @ (x + rng.normal(size=M) * 0.02)
        xh = x + Lg @ (Z - Hm @ x)
        t0, it0 = m.t, m.iter_count
        ca = dict(callkw)
        if first:
            ca['P_x_k_k'] = P.copy(); first = False
        u = {f: k[f] for f in ('u_o', 'u_w', 'u_p') if k.get(f) is not None}
        keep = {f: np.array(v, copy=True) for f, v in ca.items()}
        keep['Z'] = Z.copy()
        sim.kalman_filter(Z, dt=dt, SR=SR, **ca, **u)
        ca['Z'] = Z
        r.check(all(np.array_equal(keep[f], ca[f]) for f in ca), 'inputs', 'an assimilation argument was modified', **d)
        r.check(abs(m.t - t0) <= 1e-9 * (1 + abs(t0)) and m.iter_count == it0, 'clock', 'assimilation moved the clock', t=m.t, t0=t0, **d)
        r.count('clock')
        want = np.clip(xh, z, top)
        r.count('filter_heads', M)
        if nb < M:
            r.count('partial_sensors')
        lim = 1e-7 * sc * (1 + 1e-3 * np.linalg.cond(S) ** 0.5)
        r.check(np.allclose(m.H_j, want, rtol=0, atol=lim), 'filter_heads', 'assimilated heads are not the filter estimate',
                heads=m.H_j, estimate=xh, Z=Z, H=Hm, Q=Qm, R=Rm, P=P, **d)
        if (want == xh).all():
            if kind == 'zero':
                r.count('zero_gain')
                r.check(np.abs(m.H_j - x).max() <= 1e-6, 'zero_gain', 'useless sensors changed the heads', heads=m.H_j, prior=x, **d)
            if kind == 'exact':
                r.count('exact_sensors')
                r.check(np.abs(Hm @ m.H_j - Z).max() <= 1e-6 * sc, 'exact_sensors', 'perfect sensors are not met', heads=m.H_j, Z=Z, H=Hm, **d)
        Pg = np.array(sim.P_x_k_k, float)
        ps = max(np.abs(Pm).max(), 1e-12)
        r.count('filter_covariance', M * M)
        r.check(Pg.shape == P2.shape and np.allclose(Pg, P2, rtol=0, atol=1e-6 * ps), 'filter_covariance', 'posterior covariance is not the filter covariance',
                got=Pg, expected=P2, **d)
        r.count('innovation_covariance', nb * nb)
        r.check(np.allclose(sim.P_zz, S, rtol=0, atol=1e-6 * np.abs(S).max()), 'innovation_covariance', 'innovation covariance is wrong',
                got=sim.P_zz, expected=S, **d)
        r.count('covariance_psd')
        r.check(np.abs(Pg - Pg.T).max() <= 1e-8 * ps and np.linalg.eigvalsh(0.5 * (Pg + Pg.T)).min() >= -1e-8 * ps, 'covariance_psd',
                'covariance is not symmetric and non-negative', got=Pg, **d)
        if SR:
            r.count('square_root', M)
        P = Pg
        if ident:
            # flows belong to the assimilated heads
            new = oracle.snap(m)
            out = ref.residuals(old, old, new, e, dt)
            jok, kok = ref.masks(old, new, out)
            ref.advance(out)
            for f, name in (('cont', ''), ('mom', ''), ('uk', 'thin_uk'), ('dk', 'thin_dk')):
                res, s = out[f]
                ok = per(ref, f, kok)
                if name:
                    ok = ok & ~out[name]
                r.count('flows_after', int(ok.sum()))
                bad = ok & ~(np.abs(res) <= 1e-6 * s)
                r.check(not bad.any(), 'flows_after', 'after assimilation the superlink interiors do not follow the assimilated heads',
                        equation=f, residual=res, scale=s, **d)


def per(ref, f, kok):
    # superlink mask spread over the elements of an equation
    return kok if f in ('uk', 'dk') else kok[ref.k_I] if f == 'cont' else kok[ref.k_i]
