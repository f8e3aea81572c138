"""Soil infiltration against the water balance and an independent step-by-step Green-Ampt reference."""
import numpy as np
import pandas as pd

PROP = 'C21'
N = {'quick': 400, 'thorough': 12000}
NEED = ['balance', 'runoff', 'available', 'capacity', 'law', 'rates', 'deficit', 'recovered', 'new_event', 'saturated', 'saturating',
        'desaturated', 'light_rain', 'unsaturated_heavy', 'ponded', 'ponding_drained', 'alone', 'external_ponding', 'clock', 'cumulative', 'recovery_time', 'uncompiled']
RULE = ('random collections of soils driven by random rainfall histories (dry, light, heavy, alternating, per element), '
        'with and without depths imposed by the caller; one evaluation is one soil in one time step, judged from the '
        'observed state before it; behaviours are (regime before, regime after, ponded, rain class, time-step class)')
ASSUME = ['moisture deficit is positive at the start (initial moisture below saturation)',
          'a step whose regime test is within 1e-6 (relative) of its threshold may take either regime',
          'the Green-Ampt law is judged by the residual of its integrated form (solver tolerance 1.5e-8 m)']


def soils(rng, n):
    Ks = np.exp(rng.uniform(np.log(1e-7), np.log(6e-5), n))
    ts = rng.uniform(0.35, 0.5, n)
    return pd.DataFrame(dict(psi_f=rng.uniform(0.04, 0.35, n), Ks=Ks, theta_s=ts, theta_i=ts - rng.uniform(0.02, 0.32, n),
                             A_s=rng.uniform(1, 5e3, n)))


def rain(rng, Ks, n):
    """rate series, one row per step"""
    m = len(Ks)
    out = np.zeros((n, m)); k = 0
    while k < n:
        L = int(rng.integers(1, 9))
        c = rng.integers(5)
        if c == 0:
            v = np.zeros(m)
        elif c == 1:
            v = Ks * rng.uniform(0.05, 1.0, m)
        elif c == 2:
            v = Ks * rng.uniform(1.05, 8, m)
        elif c == 3:
            v = Ks * np.exp(rng.uniform(0, np.log(200), m))
        else:
            v = np.where(rng.random(m) < 0.5, 0, Ks * np.exp(rng.uniform(-2, 4, m)))
        out[k:k + L] = v
        k += L
    return out


def law(F2, F1, dt, Ks, pt):
    """residual of the integrated Green-Ampt equation"""
    return Ks * dt + F1 - F2 + pt * np.log((F2 + pt) / (F1 + pt))


def roots(r, rng, P):
    """the root finders themselves, on cumulative infiltrations whose law is solved exactly by construction"""
    from pipedream_solver import ninfiltration as ni
    solve = getattr(ni, 'run_green_ampt_newton', None)
    if solve is None:
        return
    n = len(P); Ks = P['Ks'].values; td = (P['theta_s'] - P['theta_i']).values * rng.uniform(0.1, 1, n); psi = P['psi_f'].values
    F1 = np.exp(rng.uniform(np.log(1e-6), np.log(0.5), n)) * (rng.random(n) > 0.1)
    F2 = F1 + np.exp(rng.uniform(np.log(1e-5), np.log(0.3), n))
    dt = np.array([(F2[e] - F1[e] - psi[e] * td[e] * np.log((F2[e] + psi[e] * td[e]) / (F1[e] + psi[e] * td[e]))) / Ks[e] for e in range(n)])
    ok = dt > 1e-3
    ia = (F2 - F1) / np.where(ok, dt, 1) * rng.uniform(1.001, 5, n)
    for bounded in (True, False):
        x0 = F1 + ia * dt if not bounded or rng.random() < 0.5 else F1.copy()
        out = np.asarray(solve(np.zeros(n), x0.copy(), F1.copy(), dt.copy(), Ks, td, psi, ia, max_iter=100, bounded=bounded))
        r.count('root_bounded' if bounded else 'root_unbounded', int(ok.sum()))
        # displacement of the root equivalent to the tolerance of the solver and to rounding in the law
        tol = 1e-7 + 1e-12 * (F2 + psi * td) ** 2 / np.maximum(F2, 1e-9)
        bad = ok & ~(np.abs(out - F2) <= tol)
        if bad.any():
            e = int(np.flatnonzero(bad)[0])
            r.violate('root', 'the %s solution of the Green-Ampt law is %.9g m, exactly %.9g m' % ('bounded' if bounded else 'unbounded', out[e], F2[e]),
                      F1=F1[e], dt=dt[e], Ks=Ks[e], theta_d=td[e], psi_f=psi[e], ia=ia[e], x0=x0[e])


def state(g):
    return {f: np.array(getattr(g, f), copy=True) for f in ('F', 'f', 'd', 'T', 'theta_d', 'theta_du', 'is_saturated')}


def case(r, i, rng, tier):
    from pipedream_solver.ninfiltration import nGreenAmpt
    if i % 4 == 3:
        # the implementation used where compilation is not available
        from pipedream_solver.infiltration import GreenAmpt as nGreenAmpt
        r.count('uncompiled')
    n = int(rng.integers(1, 9))
    P = soils(rng, n)
    Ks, psi, A = P['Ks'].values, P['psi_f'].values, P['A_s'].values
    dmax = (P['theta_s'] - P['theta_i']).values
    roots(r, rng, P)
    inhr = Ks * 39.97 * 3600
    Lu = 4 * np.sqrt(inhr) * 0.0254
    kr = np.sqrt(inhr) / 75 / 3600
    Tr = 4.5 / np.sqrt(inhr) * 3600
    nstep = 80 if tier == 'quick' else 200
    R = rain(rng, Ks, nstep)
    dts = np.full(nstep, float(rng.choice([15, 60, 300, 900, 3600])))
    if rng.random() < 0.4:
        dts = rng.choice([1.0, 15, 60, 300, 900, 3600, 20000], nstep)
    ext = str(rng.choice(['none', 'random', 'drained']))
    g = nGreenAmpt(P)
    one = int(rng.integers(n))
    solo = nGreenAmpt(P.iloc[[one]].reset_index(drop=True))
    order = rng.permutation(n)
    shuffled = nGreenAmpt(P.iloc[order])
    r.sample = dict(soils=n, steps=nstep, dt=[float(v) for v in np.unique(dts)], imposed_depths=ext)
    t = 0.0
    for s in range(nstep):
        dt, x = float(dts[s]), R[s].copy()
        if ext == 'drained' or (ext == 'random' and rng.random() < 0.5):
            d = np.where((rng.random(n) < 0.3) | (ext == 'drained'), 0, rng.uniform(0, 0.2, n))
            g.d = d.copy(); solo.d = d[[one]].copy(); shuffled.d = d[order].copy()
            r.count('external_ponding', n)
        b = state(g)
        g.step(dt=dt, i=x); solo.step(dt=dt, i=x[[one]]); shuffled.step(dt=dt, i=x[order])
        a = state(g); t += dt
        det = dict(soil=P.to_dict('list'), rain=R[:s + 1].tolist(), dts=dts[:s + 1].tolist(), step=s, before=b, after=a)

        def ck(key, ok, msg, **k):
            ok = np.asarray(ok)
            if not ok.all():
                e = int(np.flatnonzero(~ok)[0])
                r.violate(key, '%s (element %d)' % (msg, e), element=e, **k, **det)
        r.check(np.array_equal(x, R[s]), 'inputs', 'the rainfall array was modified', **det)
        r.count('clock')
        r.check(abs(g.t - t) <= 1e-9 * t and g.iter_count == s + 1, 'clock', 'model time %r, expected %r' % (g.t, t), **det)
        for f in a:
            r.count('alone', n)
            r.check(np.array_equal(np.asarray(getattr(solo, f)), a[f][[one]]) and np.array_equal(np.asarray(getattr(shuffled, f)), a[f][order]), 'alone',
                    'an element evolves differently in another collection: %s' % f, solo=getattr(solo, f), shuffled=getattr(shuffled, f), order=order, one=one, **det)
        ck('finite', np.all([np.isfinite(v) for v in a.values()], axis=0), 'state is not finite')
        # ---- water balance
        f = a['f']; av = x * dt + b['d']; sc = 1e-12 + 1e-9 * av
        dF = f * dt
        r.count('balance', n); r.count('available', n)
        ck('available', (f >= -1e-15) & (dF <= av + sc), 'infiltration is negative or exceeds the available water', infiltrated=dF, available=av)
        ck('balance', (a['d'] >= 0) & (np.abs(av - dF - a['d']) <= 10 * sc), 'rainfall and ponded water do not add up to infiltration and ponding', residual=av - dF - a['d'])
        Q = np.asarray(g.Q, float)
        r.count('runoff', n)
        ck('runoff', np.abs(Q - np.maximum(x - f, 0) * A) <= 1e-12 + 1e-9 * Q, 'runoff is not the rainfall in excess of infiltration over the area', Q=Q)
        r.count('ponded', (a['d'] > 1e-9).sum()); r.count('ponding_drained', ((b['d'] > 1e-9) & (a['d'] < b['d'])).sum())
        # ---- limits
        r.count('deficit', n)
        ck('deficit', (a['theta_du'] >= 0) & (a['theta_du'] <= dmax + 1e-12) & (a['theta_d'] > 0) & (a['theta_d'] <= dmax + 1e-12),
           'moisture deficit left its limits', theta_dmax=dmax)
        ck('cumulative', a['F'] >= 0, 'cumulative infiltration is negative')
        r.count('cumulative', n)
        # ---- reference step from the observed state
        ia = x + b['d'] / dt
        T0 = b['T'] - dt
        for e in range(n):
            pt = psi[e] * b['theta_d'][e]
            F1, k = b['F'][e], Ks[e]
            dry = ia[e] == 0
            regimes = []
            if b['is_saturated'][e]:
                regimes = ['sat']
            elif dry:
                regimes = ['dry']
            else:
                if ia[e] <= k * (1 + 1e-9):
                    regimes.append('light')
                if ia[e] > k * (1 - 1e-9):
                    Fs = k * pt / (ia[e] - k) if ia[e] > k else np.inf
                    eps = 1e-6 * min(Fs, 1e6) + 1e-9
                    if F1 >= Fs - eps:
                        regimes.append('sat')
                    if F1 + ia[e] * dt < Fs + eps:
                        regimes.append('heavy')
                    if F1 < Fs + eps and F1 + ia[e] * dt >= Fs - eps:
                        regimes.append('part')
            why = []
            done = None
            for g_ in regimes:
                w = judge(g_, e, a, b, dt, ia[e], pt, k, F1, Lu[e], kr[e], Tr[e], dmax[e], T0[e])
                if w is None:
                    done = g_
                    break
                why.append((g_,) + w)
            if done is None:
                g_, key, msg = why[0]
                r.violate(key, 'element %d (%s): %s' % (e, g_, msg), element=e, **det)
                return
            r.count({'sat': 'saturated', 'part': 'saturating', 'heavy': 'unsaturated_heavy', 'light': 'light_rain', 'dry': 'recovered'}[done])
            if done == 'sat' and not a['is_saturated'][e]:
                r.count('desaturated')
            if done == 'dry' and T0[e] <= 0:
                r.count('new_event')
            if done in ('sat', 'part'):
                r.count('capacity'); r.count('law')
            r.count('rates'); r.count('recovery_time')
            r.seen(done, bool(a['is_saturated'][e]), bool(b['d'][e] > 0), 0 if x[e] == 0 else 1 + (x[e] > k), int(np.log10(dt)))


def judge(reg, e, a, b, dt, ia, pt, k, F1, Lu, kr, Tr, dmax, T0):
    """None when the observed step is that of regime `reg`, otherwise (monitor, message)."""
    f, F2 = a['f'][e], a['F'][e]
    near = lambda u, v, s=1.0: abs(u - v) <= 1e-9 * (abs(u) + abs(v)) + 1e-13 * s
    if reg == 'dry':
        want = min(max(b['theta_du'][e] + kr * dmax * dt, 0), dmax)
        if f != 0:
            return 'rates', 'infiltration without water'
        if not near(a['theta_du'][e], want):
            return 'recovered', 'deficit %r instead of %r after a dry step' % (a['theta_du'][e], want)
        if not near(a['T'][e], T0, 1e6):
            return 'recovery_time', 'recovery time %r instead of %r' % (a['T'][e], T0)
        if T0 <= 0:
            if F2 != 0 or not near(a['theta_d'][e], want):
                return 'new_event', 'the recovery time has passed, but cumulative infiltration and deficit are not reset'
        elif not near(F2, max(F1 - kr * dmax * dt * Lu, 0)) or a['theta_d'][e] != b['theta_d'][e]:
            return 'recovered', 'cumulative infiltration or deficit is wrong after a dry step'
        return None
    if a['theta_d'][e] != b['theta_d'][e]:
        return 'deficit', 'the event deficit changed during rain'
    if not near(F2 - F1, f * dt, 10 + F1 * 1e5):
        return 'cumulative', 'cumulative infiltration grew by %r, infiltrated %r' % (F2 - F1, f * dt)
    want = min(max(b['theta_du'][e] - (F2 - F1) / Lu, 0), dmax)
    if not near(a['theta_du'][e], want, 10 + F1 / Lu * 1e4):
        return 'deficit', 'upper-zone deficit %r instead of %r' % (a['theta_du'][e], want)
    wantT = T0 if reg == 'light' else Tr
    if not near(a['T'][e], wantT, 1e6):
        return 'recovery_time', 'recovery time %r instead of %r' % (a['T'][e], wantT)
    if reg in ('light', 'heavy'):
        if not near(f, ia):
            return 'rates', 'an unsaturated soil infiltrates %r of %r available' % (f, ia)
        if a['is_saturated'][e]:
            return 'rates', 'soil became saturated below its capacity'
        return None
    if reg == 'part':
        Fs = k * pt / (ia - k)
        sub = dt - (Fs - F1) / ia
        lim, base, w = F1 + ia * dt, Fs, sub
    else:
        lim, base, w = F1 + ia * dt, F1, dt
    over = law(lim, base, w, k, pt) > 0          # capacity exceeds what is available
    res = law(F2, base, w, k, pt)
    tol = 1e-7 + 1e-9 * (F2 + base)
    if res < -tol:
        return 'capacity', 'infiltration exceeds the Green-Ampt capacity (residual %r)' % res
    limited = abs(F2 - lim) <= 1e-9 * lim + 1e-12
    if not (abs(res) <= tol or limited):
        return 'law', 'infiltration does not follow the Green-Ampt law (residual %r)' % res
    if reg == 'sat':
        sure = abs(law(lim, base, w, k, pt)) > 1e-9 * (lim + base) + 1e-12
        if sure and bool(a['is_saturated'][e]) == bool(over):
            return 'rates', 'saturation flag is %r although capacity %s the available water' % (bool(a['is_saturated'][e]), 'exceeds' if over else 'is below')
    return None
