"""The documented workflows on the example models shipped with the repository: rainfall, infiltration, hydraulics and
transport coupled as the documentation couples them, every component judged at once."""
import copy
import json
import os
import numpy as np
import pandas as pd
from vlib import oracle, traj
from checks import c21

PROP = 'C27'
N = {'quick': 160, 'thorough': 5000}
NEED = ['hydraulics_undisturbed', 'infiltration_undisturbed', 'quality_undisturbed', 'rain_budget', 'received', 'received_momentum',
        'received_ends', 'received_mass', 'volume_closed', 'clock', 'recorded', 'infiltrating', 'runoff', 'model_hillslope', 'model_real network',
        'model_alpha', 'model_adaptive_step', 'model_storage_test', 'quality_in_context', 'documented_transport']
RULE = ('a shipped example model with perturbed discretisation, soils, rainfall, inflow and time steps per case, driven through the '
        'documented coupling; one evaluation is one step of the coupled system; behaviours are (model, context, quality, rain, infiltrating)')
ASSUME = ['balances are judged where no depth is clamped at its documented floor or ceiling',
          'the stored volume is judged exactly on the hillslope (constant widths and areas)']
TOL = 1e-3          # wiring is judged here; C01-C04 judge the equations themselves to 1e-6
ROOT = os.environ.get('VB_REPO', '/repo')
MODELS = ['hillslope', 'hillslope', 'real network', 'alpha', 'adaptive_step', 'storage_test', 'hillslope', 'real network']
SJ = ('z_inv', 'h_0', 'bc', 'storage', 'a', 'b', 'c', 'max_depth')
SL = ('sj_0', 'sj_1', 'in_offset', 'out_offset', 'dx', 'shape', 'g1', 'g2', 'g3', 'g4', 'Q_0', 'h_0', 'ctrl', 'A_s', 'A_c', 'C',
      'C_uk', 'C_dk', 'dx_uk', 'dx_dk')
HYD = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p')
INF = ('F', 'f', 'T', 'theta_d', 'theta_du', 'is_saturated', 'd', 'Q')
QUA = ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk')


def load(name):
    """tables of a shipped model as the documentation reads them"""
    d = os.path.join(ROOT, 'data', name)
    out = {}
    for f in sorted(os.listdir(d)):
        for t in ('superjunctions', 'superlinks', 'orifices', 'soil_params', 'superjunction_wq_params', 'superlink_wq_params'):
            if f in (t + '.csv', name + '_' + t + '.csv'):
                out[t] = pd.read_csv(os.path.join(d, f))
    if os.path.exists(os.path.join(d, 'storage.json')):
        with open(os.path.join(d, 'storage.json')) as h:
            out['storages'] = json.load(h)
    return out


def spec_of(T, internal):
    sj = [{c: r[c] for c in SJ if c in r} for r in T['superjunctions'].to_dict('records')]
    for s, r in zip(sj, T['superjunctions'].to_dict('records')):
        if s['storage'] == 'tabular':
            s['table'] = r['table']
    sl = []
    for r in T['superlinks'].to_dict('records'):
        s = {c: r[c] for c in SL if c in r}
        s['roughness'] = r['n']; s['friction_method'] = 'cm'
        sl.append(s)
    orif = [{c: r[c] for c in ('sj_0', 'sj_1', 'A', 'orientation', 'z_o', 'y_max', 'C')} for r in T['orifices'].to_dict('records')] if 'orifices' in T else []
    for o in orif:
        o['orientation'] = o['orientation'].lower()
    return dict(sj=sj, sl=sl, orifices=orif, weirs=[], pumps=[], transects={}, storages=T.get('storages', {}), kw=dict(internal_links=internal))


def copies(o, names):
    return {n: np.array(getattr(o, n), copy=True) for n in names if getattr(o, n, None) is not None}


def differs(a, b):
    return [n for n in a if not np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == "f")]


def documented_transport(r):
    """docs/hillslope-transport.md word for word"""
    from pipedream_solver.hydraulics import SuperLink
    from pipedream_solver.transport import QualityBuilder
    T = load('hillslope')
    m = SuperLink(T['superlinks'], T['superjunctions'], internal_links=24)
    r.count('documented_transport')
    try:
        q = QualityBuilder(m, superjunction_params=T['superjunction_wq_params'], superlink_params=T['superlink_wq_params'])
        for _ in range(5):
            m.step(dt=10, Q_in=1e-2 * np.asarray([1., 0.]), Q_0Ik=1e-3 * np.ones(m.NIk))
            q.step(dt=10, c_0j=np.zeros(2))
    except ZeroDivisionError as e:
        r.violate('documented_transport', 'the documented transport example does not run: %s' % e, model='hillslope')
        return
    r.check(np.isfinite(q.c_Ik).all(), 'documented_transport', 'the documented transport example gives non-finite concentrations', model='hillslope')


def case(r, i, rng, tier):
    if i == 80:
        return documented_transport(r)
    from pipedream_solver.hydraulics import SuperLink
    from pipedream_solver.hydrology import GreenAmpt
    from pipedream_solver.simulation import Simulation
    from pipedream_solver.transport import QualityBuilder
    name = MODELS[i % len(MODELS)]
    T = load(name)
    internal = int(rng.integers(2, 25)) if name == 'hillslope' else int(rng.integers(2, 9))
    sj, sl = T['superjunctions'], T['superlinks']
    # realistic variations of the shipped model
    if rng.random() < 0.7:
        sl['dx'] = sl['dx'] * rng.uniform(0.7, 1.5)
        sl['n'] = sl['n'] * rng.uniform(0.7, 1.5)
    if 'max_depth' in sj and name != 'alpha':
        sj['max_depth'] = np.inf
    if name == 'alpha' and rng.random() < 0.7:
        sj['max_depth'] = 100.0
    wet = float(rng.choice([0, 0.05, 0.5]))
    sl['h_0'] = np.maximum(sl['h_0'], wet); sj['h_0'] = np.maximum(sj['h_0'], wet * rng.random(len(sj)))
    if name == 'hillslope':
        # tall enough never to be bank-full
        sl['g1'] = 1000.0
        if rng.random() < 0.7:
            sl['dx_uk'] = 0.5; sl['dx_dk'] = 0.5; sl['C_uk'] = 0.67; sl['C_dk'] = 0.67
    if name in ('adaptive_step', 'storage_test') and rng.random() < 0.7:
        sl['dx_uk'] = 0.1; sl['dx_dk'] = 0.1
    Hbc = (sj['z_inv'] + np.maximum(sj['h_0'], 0.05)).values if sj['bc'].any() else None
    dt = float(rng.choice([2, 5, 10, 15]))
    r.count('model_' + name)
    spec = spec_of(T, internal)
    kw = dict(internal_links=internal)
    if name == 'real network':
        kw['mobile_elements'] = False

    def hyd():
        a = {t: copy.deepcopy(T[t]) for t in ('orifices', 'storages') if t in T}
        return SuperLink(sl.copy(), sj.copy(), **a, **kw)
    m, alone = hyd(), hyd()
    ref = oracle.Ref(spec)
    nI, M = m.NIk, m.M
    P = c21.soils(rng, nI)
    if 'soil_params' in T and nI == len(T['soil_params']) and rng.random() < 0.8:
        P = T['soil_params'].copy()
    P['A_s'] = rng.uniform(0.1, 5.0, nI)
    if 'soil_params' in T:
        q = T['soil_params'].iloc[0]
        P['A_s'] = np.maximum(ref_area(ref), 1.0)
    ga, ga_alone = GreenAmpt(P.copy()), GreenAmpt(P.copy())
    # transport is available for circular and rectangular sections with mixing lengths at the ends
    quality = name not in ('alpha',) and bool(rng.random() < 0.6) and 'dx_uk' in sl and wet > 0
    lateral, wq = bool(rng.random() < 0.5), None
    if quality:
        if 'superjunction_wq_params' in T:
            pj, pl = T['superjunction_wq_params'].copy(), T['superlink_wq_params'].copy()
        else:
            pj = pd.DataFrame(dict(K=np.zeros(M), c_0=np.zeros(M), bc=np.zeros(M, bool)))
            pl = pd.DataFrame(dict(K=np.zeros(len(sl)), D=np.full(len(sl), 1e-3), c_0=np.zeros(len(sl)), dx_uk=np.ones(len(sl)),
                                   dx_dk=np.ones(len(sl)), D_uk=np.full(len(sl), 1.0), D_dk=np.full(len(sl), 1.0)))
        pl = pl.iloc[:len(sl)].copy()
        for c, v in (('dx_uk', 1.0), ('dx_dk', 1.0)):
            if c not in pl:
                pl[c] = v
        wq = QualityBuilder(m, superjunction_params=pj.copy(), superlink_params=pl.copy())
        wq_alone = QualityBuilder(alone, superjunction_params=pj.copy(), superlink_params=pl.copy())
    spun = bool(rng.random() < 0.3)
    if spun:
        k = int(rng.integers(1, 20))
        m.spinup(n_steps=k, dt=dt); alone.spinup(n_steps=k, dt=dt)
        r.count('spinup')
    n = 30 if tier == 'quick' else 60
    rain = c21.rain(rng, P['Ks'].values, n)
    rain[rng.random(n) < 0.3] += 50 / 1000 / 3600
    inflow = rng.random(M) * (rng.random(M) < 0.5) * float(rng.choice([0, 1e-3, 0.05]))
    ctx = bool(rng.random() < 0.7)
    sim = Simulation(m, t_start=0, t_end=1e9, dt=dt) if ctx else None
    drive = sim.step if ctx else m.step
    lat = 'Q_Ik' if ctx else 'Q_0Ik'
    u = np.full(len(spec['orifices']), float(rng.random())) if spec['orifices'] else None
    r.sample = dict(model=name, internal_links=internal, context=ctx, quality=quality, dt=dt, wet=wet)
    r.seen(name, ctx, quality, lateral, spun, wet > 0)
    rec = []
    t0, fell, given, thr = float(m.t), 0.0, 0.0, 0.0
    ga_t = 0.0
    v0 = None
    soaked = np.zeros(nI)
    for s in range(n):
        if rng.random() < 0.2:
            dt = float(rng.choice([2, 5, 10, 15])) * float(rng.uniform(0.8, 1.2))
        x = rain[s].copy(); Qin = inflow * (1 + np.sin(s / 5)) / 2
        det = dict(model=name, step=s, dt=dt, internal_links=internal)
        # -- infiltration reads the depths of the hydraulic model
        H0, W0 = copies(m, HYD), copies(wq, QUA) if quality else {}
        if i % 3:
            ga.d = m.h_Ik
            ga_alone.d = np.array(m.h_Ik, copy=True)
        d0 = np.array(ga_alone.d, copy=True)
        ga.step(dt=dt, i=x)
        ga_alone.step(dt=dt, i=rain[s].copy())
        ga_t += dt
        w = differs(H0, copies(m, HYD))
        r.count('hydraulics_undisturbed')
        r.check(not w, 'hydraulics_undisturbed', 'computing infiltration changed the hydraulic model: %s' % w, **det)
        r.check(np.array_equal(x, rain[s]), 'inputs', 'computing infiltration changed the rainfall', **det)
        w = differs(copies(ga, INF), copies(ga_alone, INF))
        r.count('infiltration_undisturbed')
        r.check(not w, 'infiltration_undisturbed', 'coupled infiltration differs from infiltration computed alone on the same depths: %s' % w, **det)
        A = P['A_s'].values
        f = np.asarray(ga.f); Q = np.array(ga.Q, copy=True)
        r.count('rain_budget'); r.count('infiltrating', int((f > 0).any())); r.count('runoff', int((Q > 0).any()))
        bal = x * A - np.minimum(x, f) * A - Q
        r.check((np.abs(bal) <= 1e-12 + 1e-9 * x * A).all() and (f * dt <= x * dt + d0 + 1e-9).all(), 'rain_budget',
                'rainfall is not split into infiltration and runoff', residual=bal, **det)
        # -- hydraulics receives the runoff
        G0 = copies(ga, INF)
        old = oracle.snap(m)
        k = {lat: ga.Q, 'dt': dt, 'Q_in': Qin.copy()}
        k2 = dict(dt=dt, Q_in=Qin.copy(), Q_0Ik=Q.copy())
        if Hbc is not None:
            k['H_bc'] = Hbc.copy(); k2['H_bc'] = Hbc.copy()
        if u is not None:
            k['u_o'] = u.copy(); k2['u_o'] = u.copy()
        drive(**k)
        alone.step(**k2)
        new = oracle.snap(m)
        w = differs(G0, copies(ga, INF))
        r.check(not w, 'infiltration_undisturbed', 'advancing the hydraulic model changed the infiltration model: %s' % w, **det)
        r.check(quality is False or not differs(W0, copies(wq, QUA)), 'quality_undisturbed', 'concentrations changed before transport was computed', **det)
        w = [q for q in new if not np.array_equal(new[q], oracle.snap(alone)[q])]
        r.check(not w, 'hydraulics_undisturbed', 'the coupled hydraulic model differs from the same model alone with the same inflows: %s' % w, **det)
        e = dict(dt=dt, Q_in=Qin.tolist(), Q_0Ik=Q.tolist())
        if Hbc is not None:
            e['H_bc'] = Hbc.tolist()
        if u is not None:
            e['u_o'] = u.tolist()
        r.count('clock')
        r.check((not ctx or sim.t == m.t) and m.t == alone.t and abs(m.t - t0 - ga_t) <= 1e-9 * (1 + ga_t) and abs(ga.t - ga_t) <= 1e-9 * (1 + ga_t), 'clock',
                'the clocks of the components disagree: %r %r %r' % (m.t, alone.t, ga.t), **det)
        if judge(r, ref, spec, old, new, e, det, spun and s == 0):
            return
        if name == 'hillslope':
            v = volume(ref, spec, new)
            if v0 is not None and live(ref, old, new):
                add = dt * (Qin.sum() + Q.sum())
                given += add; thr += add + dt * np.abs(new['Q_ik']).sum()
                err = abs(v - v0 - given) / (thr + 1e-6 * v + 1e-3)
                r.count('volume_closed'); r.peak('volume_closed', err)
                r.check(err <= 1e-6, 'volume_closed', 'stored water changed by %.9g m3 but rainfall and inflow supplied %.9g' % (v - v0, given), **det)
            elif live(ref, new, new):
                v0, given, thr = v, 0.0, 0.0
            else:
                v0 = None
        # -- transport reads the flows
        if quality:
            H1, G1 = copies(m, HYD), copies(ga, INF)
            c0 = rng.random(M)
            kq = dict(c_0j=c0.copy())
            if lateral:
                kq['c_0Ik'] = rng.random(nI)
            wq.step(dt=dt, **kq)
            r.count('quality_undisturbed'); r.count('quality_in_context', ctx)
            w = differs(H1, copies(m, HYD)) + differs(G1, copies(ga, INF))
            r.check(not w, 'hydraulics_undisturbed', 'computing transport changed another component: %s' % w, **det)
            r.check(np.array_equal(kq['c_0j'], c0), 'inputs', 'computing transport changed its inputs', **det)
            wq_alone.step(dt=dt, **{q: v.copy() for q, v in kq.items()})
            w = differs(copies(wq, QUA), copies(wq_alone, QUA))
            r.check(not w, 'quality_undisturbed', 'coupled transport differs from transport computed alone on the same flows: %s' % w, **det)
        if ctx:
            sim.record_state()
            rec.append((float(m.t), new))
    if ctx:
        r.count('recorded', len(rec))
        for q in ('H_j', 'h_Ik', 'Q_ik'):
            tab = getattr(sim.states, q)
            tab = tab if isinstance(tab, dict) else {t: v for t, v in zip(tab.index, tab.values)}
            for t, st in rec:
                r.check(t in tab and np.array_equal(np.asarray(tab[t]), st[q]), 'recorded', 'the record of %s at %r is not the state then' % (q, t), model=name)


def ref_area(ref):
    """plan area of each internal junction of the hillslope"""
    B = ref.g[:, 1]
    a = np.zeros(len(ref.k_I))
    np.add.at(a, ref.Iu, B[ref.k_i] * ref.dx / 2); np.add.at(a, ref.Iu + 1, B[ref.k_i] * ref.dx / 2)
    return a


def volume(ref, spec, s):
    c = np.array([q['c'] for q in spec['sj']], float)
    B = ref.g[:, 1]; h = s['h_Ik']
    V = (c * (s['H_j'] - ref.z)).sum() + (B[ref.k_i] * ref.dx * (h[ref.Iu] + h[ref.Iu + 1]) / 2).sum() + (ref.As * h).sum()
    yu, yd = s['H_j'][ref.Ju] - ref.zu, s['H_j'][ref.Jd] - ref.zd
    return V + (B * ref.dxu * (h[ref.I1] + yu) / 2).sum() + (B * ref.dxd * (h[ref.IN] + yd) / 2).sum()


def live(ref, old, new):
    a = (new['h_Ik'] > 1e-5 * (1 + 1e-6)).all() and (old['h_Ik'] > 1e-5 * (1 + 1e-6)).all()
    for s in (old, new):
        a = a and (s['H_j'][ref.Ju] > ref.zu + 1e-3).all() and (s['H_j'][ref.Jd] > ref.zd + 1e-3).all() and (s['h_Ik'] > 1e-3).all()
    return a and (ref.th[0] == 1).all() and (ref.th[1] == 1).all()


def judge(r, ref, spec, old, new, e, det, first):
    out = ref.residuals(old, old, new, e, e['dt'])
    jok, kok = ref.masks(old, new, out)
    ref.advance(out)
    for v in new.values():
        if not np.isfinite(v).all():
            r.violate('finite', 'the hydraulic state is not finite', **det)
            return
    ctl = np.zeros(ref.M, bool)
    for o in spec['orifices']:
        ctl[[o['sj_0'], o['sj_1']]] = True
    quiet = jok.copy()
    np.logical_and.at(quiet, ref.Ju, jok[ref.Jd]); np.logical_and.at(quiet, ref.Jd, jok[ref.Ju])
    # ill-conditioned where nearly dry: depths below a millimetre, flows below a litre per second
    h = np.minimum(old['h_Ik'], new['h_Ik']); wet = np.ones(ref.NK, bool)
    np.logical_and.at(wet, ref.k_I, h > 1e-3)
    # long steps may be numerically unstable: only physical states are judged
    if np.abs(new['Q_ik']).max() > 100 or new['h_Ik'].max() > 50:
        r.count('unphysical')
        return True
    wj = np.ones(ref.M, bool)
    np.logical_and.at(wj, ref.Ju, wet); np.logical_and.at(wj, ref.Jd, wet)
    if first:
        return
    for key, what, ok in (('received', 'cont', (kok & wet)[ref.k_I]), ('received_momentum', 'mom', (kok & wet)[ref.k_i] & ~out['thin_i']),
                          ('received_ends', 'uk', kok & wet & ~out['thin_uk']), ('received_ends', 'dk', kok & wet & ~out['thin_dk']),
                          ('received_mass', 'mass', quiet & wj & ~ref.bc & ~ctl)):
        res, sc = out[what]
        q = np.where(ok, np.abs(res) / (sc + (1e-3 if what in ('cont', 'mass') else 0)), 0)
        r.count(key, int(ok.sum())); r.peak(key, q.max())
        if not (q <= TOL).all():
            j = int(np.argmax(np.where(np.isnan(q), np.inf, q)))
            r.violate(key, '%s equation %d is not satisfied with the runoff supplied (%.3g of its terms)' % (what, j, q[j]),
                      residual=res[j], scale=sc[j], inputs=e, depths=new['h_Ik'], flows=new['Q_ik'], **det)
