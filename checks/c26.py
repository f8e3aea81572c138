"""Assimilation of a measured concentration: the Kalman equations around the transport the solver itself performs."""
import numpy as np
from vlib import nets, oracle
from checks import c22

PROP = 'C26'
N = {'quick': 120, 'thorough': 4000}
NEED = ['prediction', 'gain', 'covariance', 'applied', 'transport', 'exact_sensor', 'blind_sensor', 'non_negative', 'pinned', 'correlated',
        'synthetic', 'matrices', 'first', 'mass_link']
RULE = ('random networks with quality transport and a measured superjunction; the sensitivity of the transport step is obtained by '
        'repeating it on a second constituent with one concentration changed at a time; one evaluation is one assimilation step; '
        'behaviours are (filter, noise ratio, correlation, boundary concentrations, controls, cut at zero)')
ASSUME = ['dispersion is positive, mixing zones have positive length, superlinks have no end offsets',
          'a step in which the transport itself cut a concentration at zero is not judged (no longer linear)']


def sync(a, b):
    for k in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk'):
        setattr(b, k, np.array(getattr(a, k), float, copy=True))


def case(r, i, rng, tier):
    from pipedream_solver.nquality import QualityBuilder
    kind = ['assimilate', 'assimilate', 'assimilate', 'synthetic', 'matrices'][i % 5]
    spec, mix = c22.network(rng, 'controls' if rng.random() < 0.3 else 'plain')
    if len(spec['sj']) > 6:
        r.count('large')
    nstep = 14 if tier == 'quick' else 30
    steps = nets.forcing(rng, spec, nstep, lateral=rng.random() < 0.3, qmax=0.5, dts=(5.0, 10.0, 20.0, 60.0))
    kw = dict(mobile_elements=False) if spec.get('internals') else {}
    m = nets.build(spec, **kw)
    ref = oracle.Ref(spec)
    M = ref.M
    q = c22.quality(rng, spec, 'plain', ref)
    q['sj']['bc'] = ref.bc & (rng.random() < 0.6)
    bcq = q['sj']['bc']
    obs = int(rng.integers(M))
    noise = str(rng.choice(['balanced', 'exact', 'blind', 'wild']))
    sp = float(10 ** rng.uniform(-2, 0.5))
    sm = dict(balanced=sp * rng.uniform(0.3, 3), exact=sp * 1e-4, blind=sp * 1e6, wild=sp * 0.05)[noise]
    pc = int(rng.integers(2)) if kind == 'assimilate' else 0
    for t, v in (('KF_obs_point', obs), ('KF_process_sigma', sp), ('KF_measure_sigma', sm)):
        q['sl'][t] = np.full(ref.NK, v)
    perm = np.arange(M)

    def tables():
        T = c22.tables(q, perm)
        for t in ('KF_obs_point', 'KF_process_sigma', 'KF_measure_sigma'):
            T[1][t] = q['sl'][t]
        T[1]['KF_obs_point'] = T[1]['KF_obs_point'].astype(int)
        return T
    T = tables()
    mk = lambda: QualityBuilder(m, T[0], T[1], junction_params=T[2], link_params=T[3])
    w, probe = mk(), mk()
    r.sample = dict(filter=kind, observed=obs, process=sp, measurement=float(sm), correlated=bool(pc), superjunctions=M, steps=nstep)
    p = c22.params(q, ref)
    x = np.array(w.c_j, float)                      # estimate
    P = np.zeros((M, M))
    ctl = bool(spec['orifices'] or spec['weirs'] or spec['pumps'])
    for n, e in enumerate(steps):
        old = oracle.snap(m)
        m.step(**nets.step_kwargs(e))
        new = oracle.snap(m)
        dt = e['dt']
        if not np.isfinite(new['H_j']).all() or (new['h_Ik'] < 0.02).any() or (new['H_j'] < ref.z + 0.02).any():
            r.count('shallow'); return
        cj, cI, cb = rng.uniform(0, 30, M), rng.uniform(0, 30, len(ref.k_I)), rng.uniform(0, 20, M)
        a = dict(dt=dt, c_0j=cj, c_0Ik=cI, c_bc=cb, Q_0j=np.array(e['Q_in']),
                 Q_0Ik=np.array(e['Q_0Ik']) if 'Q_0Ik' in e else np.zeros(len(ref.k_I)))
        d = dict(spec=spec, quality=q, kw=kw, inputs=steps[:n + 1], step=n, filter=kind, observed=obs, sigma=[sp, float(sm)], correlated=pc)
        # sensitivity of the new superjunction concentrations to the old ones
        Ak = np.zeros((M, M)); base = None
        low = np.inf
        for j in range(-1, M):
            sync(w, probe)
            c = np.array(w.c_j, float, copy=True)
            if j >= 0:
                c[j] += 1.0
            probe.c_j = c
            probe.step(**a)
            got = np.array(probe.c_j, float)
            low = min(low, got.min())
            if j < 0:
                base = got
            else:
                Ak[:, j] = got - base
        b4 = c22.snapc(w, perm)
        w.step(**a)
        cw = np.array(w.c_j, float)
        r.check(np.array_equal(cw, base), 'repeat', 'the same transport step gave another result', got=cw, first=base, **d)
        if low <= 0:
            r.count('cut'); return
        # transport from the assimilated state obeys the superjunction balance
        af = c22.snapc(w, perm)
        f = c22.flowfield(ref, spec, old, new, dt)
        if min(v.min() for v in af.values()) > 0:
            out, _, _ = c22.pieces(ref, spec, p, f, af, b4, new, old, dt, dict(j=a['Q_0j'] * cj, I=a['Q_0Ik'] * cI))
            terms, s = out['superjunction']
            v = np.abs(sum(terms)) / (sum(np.abs(t) for t in terms) + s + 1e-9)
            v[bcq] = 0
            r.count('mass_link', (~bcq).sum())
            r.check(v.max() <= 1e-8, 'mass_link', 'transport does not start from the assimilated concentrations', worst=v.max(), **d)
        # ---- reference filter
        H = np.zeros((1, M)); H[0, obs] = 1
        Q = sp ** 2 * (np.ones((M, M)) if pc else np.eye(M))
        P1 = Ak @ P @ Ak.T + Q
        K = (P1 @ H.T) / (H @ P1 @ H.T + sm ** 2)
        Pn = P1 - K @ H @ P1
        if kind == 'matrices':
            prev = x
            A_, B_ = w.KF_Multi_WQ(dt)
            r.count('matrices')
            tol = 1e-7 * (1 + np.abs(cw).max())
            r.check(np.abs(A_ - Ak).max() <= 1e-7 * (1 + np.abs(Ak).max()), 'matrices', 'the returned transition matrix is not the sensitivity of the transport',
                    got=A_, sensitivity=Ak, boundary=bcq, **d)
            r.check(np.abs(A_ @ prev + B_ - cw).max() <= tol, 'matrices', 'transition and input do not reproduce the transported concentrations',
                    got=A_ @ prev + B_, transported=cw, **d)
            x = cw
            r.check(np.array_equal(w.c_j, cw), 'matrices', 'asking for the matrices changed the concentrations', **d)
        elif kind == 'synthetic':
            # artificial measurements: the model itself is not corrected
            seed = int(rng.integers(2 ** 31))
            np.random.seed(seed); z = cw[obs] + sm * np.random.randn(); np.random.seed(seed)
            pred = cw + Ak @ (x - (prevc if n else x))
            w.Kalman_Filter_WQ1(dt)
            r.count('synthetic')
            r.check(np.array_equal(w.c_j, cw), 'synthetic', 'the artificial measurement changed the model', **d)
            xn = np.maximum((pred + K[:, 0] * (z - pred[obs])), 0)
            sc = 1 + np.abs(xn).max() + np.abs(K).max() * abs(z)
            r.check(abs(w.Z - z) <= 1e-9 * (1 + abs(z)), 'synthetic', 'the artificial measurement is not the modelled value plus noise', got=w.Z, expected=z, **d)
            r.check(np.abs(w.x_hat - xn).max() <= 1e-6 * sc, 'synthetic', 'the estimate does not follow the Kalman equations', got=w.x_hat, expected=xn, **d)
            x = np.array(w.x_hat, float)
        else:
            z = float(max(0, cw[obs] + rng.normal() * 3)) if rng.random() < 0.8 else 0.0
            w.Kalman_Filter_WQ2(np.array([z]) if rng.random() < 0.5 else z, dt, pc)
            raw = cw + K[:, 0] * (z - cw[obs])
            xn = np.maximum(raw, 0)
            got = np.array(w.c_j, float)
            sc = 1 + np.abs(raw).max() + np.abs(K).max() * abs(z)
            r.count('prediction'); r.count('gain'); r.count('first', n == 0)
            v = np.abs(got - xn).max() / sc
            r.peak('estimate', v)
            if not v <= 1e-6:
                r.violate('estimate' if n else 'first', 'the assimilated concentrations are not the transported ones corrected by the Kalman gain',
                          got=got, expected=xn, transported=cw, measured=z, gain=K, **d)
            r.count('applied')
            r.check(np.array_equal(got, np.asarray(w.x_hat, float)), 'applied', 'the estimate and the model concentrations differ', estimate=w.x_hat, got=got, **d)
            r.count('non_negative', (raw < 0).any())
            if noise == 'exact':
                r.count('exact_sensor')
                r.check(abs(got[obs] - z) <= 1e-4 * (1 + abs(z - cw[obs])), 'exact_sensor', 'an error-free measurement is not reproduced', got=got[obs], measured=z, **d)
            if noise == 'blind':
                r.count('blind_sensor')
                r.check(np.abs(got - cw).max() <= 1e-5 * (1 + abs(z - cw[obs])) * max(1, np.abs(P1).max() / sp ** 2), 'blind_sensor', 'a worthless measurement moved the model', got=got, transported=cw, **d)
            if bcq.any():
                r.count('pinned')
            r.count('correlated', pc)
            x = got
        if kind != 'matrices':
            g = np.asarray(w.P_k, float)
            r.count('covariance')
            v = np.abs(g - Pn).max() / (np.abs(P1).max() + 1e-30)
            r.peak('covariance', v)
            r.check(v <= 1e-6, 'covariance', 'the error covariance does not follow the Kalman equations', got=g, expected=Pn, sensitivity=Ak, boundary=bcq, **d)
            r.check(np.abs(g - g.T).max() <= 1e-7 * (np.abs(P1).max() + 1e-30) and np.linalg.eigvalsh((g + g.T) / 2).min() >= -1e-7 * np.abs(P1).max(), 'covariance',
                    'the error covariance is not symmetric and non-negative', got=g, **d)
            P = g
        r.count('transport')
        prevc = cw
        r.seen(kind, noise, pc, bool(bcq.any()), ctl, bool((np.asarray(w.c_j) == 0).any()))
