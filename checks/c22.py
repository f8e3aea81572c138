"""Constituent transport: local balances, budget, bounds, uniformity, linearity, decay, pinned concentrations."""
import numpy as np
import pandas as pd
from vlib import nets, oracle, traj, twin

PROP = 'C22'
N = {'quick': 180, 'thorough': 7000}
NEED = ['link', 'upstream_end', 'downstream_end', 'node', 'superjunction', 'pinned', 'budget', 'bounds', 'uniform', 'linear',
        'decay', 'limits', 'defaults', 'reversed_flow', 'controls', 'mixed_sections', 'permuted', 'inputs', 'initial']
RULE = ('random networks of circular pipes and open rectangular channels with random quality parameters, driven by the real '
        'hydraulic solver; one evaluation is one balance, bound or budget in one time step, judged from observed heads, depths, '
        'flows and concentrations; behaviours are (kind, section mix, reversal, decay, boundary, controls, internals)')
ASSUME = ['rounding in the recovery of interior concentrations is allowed for by the measured amplification of a 1e-11 perturbation',
          'dispersion is positive and superlinks have mixing zones of positive length (both are divisors in the formulation)',
          'superlinks have no end offsets and water stands above every invert; a step during which depths were clamped, or the '
          'water balance of the hydraulic solver does not hold, is not judged for bounds and uniformity',
          'one hydraulic iteration per quality step; inflows are not negative']
TOL = dict(link=1e-3, node=1e-3, upstream_end=1e-7, downstream_end=1e-7, superjunction=1e-7)
KINDS = ['plain', 'uniform', 'decay', 'controls', 'plain', 'closed', 'limits', 'permuted']


def network(rng, kind):
    mix = str(rng.choice(['circular', 'rect_open', 'both', 'both']))
    o = dict(shapes=dict(circular=['circular'], rect_open=['rect_open'], both=['circular', 'rect_open'])[mix],
             ends=True, offsets=False, hj_range=(0.5, 1.2), slope=0.002)
    if kind in ('controls', 'permuted') and rng.random() < 0.8 or kind == 'controls':
        o['controls'] = 'owp'
    if kind == 'closed':
        o['bc'] = 0
    if kind == 'permuted':
        o['M'] = int(rng.integers(3, 12))
    spec = nets.rand_net(rng, **o)
    for s in spec['sl']:
        if s['shape'] == 'circular' and rng.random() < 0.7:
            s['g1'] = float(rng.uniform(1.6, 4.0))
        elif s['shape'] == 'rect_open':
            s['g1'] = 1000.0
    if rng.random() < 0.7:
        for s in spec['sj']:
            s['a'] = 0.0
    nets.canonical(spec)
    if rng.random() < 0.4 and kind != 'permuted':
        nets.add_internals(rng, spec)
    return spec, mix


def quality(rng, spec, kind, ref):
    M, K, NI, Ni = ref.M, ref.NK, len(ref.k_I), len(ref.k_i)
    c0 = lambda n: rng.uniform(0, 20, n) * (rng.random(n) < 0.8)
    k0 = (lambda n: 10 ** rng.uniform(-6, -2.5, n) * (rng.random(n) < 0.7)) if kind in ('plain', 'decay', 'controls', 'permuted', 'limits') \
        else (lambda n: np.zeros(n))
    d0 = lambda n: 10 ** rng.uniform(-1, 1.3, n)
    sj = dict(K=k0(M), c_0=c0(M), bc=(rng.random(M) < 0.3))
    if kind == 'closed':
        sj['bc'][:] = False
    sl = dict(K=k0(K), D=d0(K), c_0=c0(K))
    if rng.random() < 0.5:
        sl['D_uk'] = d0(K); sl['D_dk'] = d0(K)
    J = L = None
    if rng.random() < 0.5:
        J = dict(K=k0(NI), c_0=c0(NI), D=d0(NI)); L = dict(K=k0(Ni), D=d0(Ni), c_0=c0(Ni))
    if kind == 'uniform':
        u = float(rng.uniform(0.5, 50))
        for t in (sj, sl, J, L):
            if t:
                t['c_0'] = np.full_like(t['c_0'], u)
    return dict(sj=sj, sl=sl, J=J, L=L)


def tables(q, perm):
    sj = pd.DataFrame(q['sj']).iloc[perm].reset_index(drop=True)
    sj['name'] = ['J%d' % p for p in perm]; sj['id'] = np.arange(len(perm))
    sl = pd.DataFrame(q['sl'])
    sl['KF_obs_point'], sl['KF_process_sigma'], sl['KF_measure_sigma'] = 0, 0.1, 0.1
    return sj, sl, (pd.DataFrame(q['J']) if q['J'] else None), (pd.DataFrame(q['L']) if q['L'] else None)


def params(q, ref):
    """per-element reference parameters"""
    p = dict(Kj=q['sj']['K'], bc=q['sj']['bc'], Du=q['sl'].get('D_uk', q['sl']['D']), Dd=q['sl'].get('D_dk', q['sl']['D']))
    p['KI'] = q['J']['K'] if q['J'] else q['sl']['K'][ref.k_I]
    p['Ki'] = q['L']['K'] if q['L'] else q['sl']['K'][ref.k_i]
    p['D'] = q['L']['D'] if q['L'] else q['sl']['D'][ref.k_i]
    return p


def snapc(w, inv):
    return dict(j=np.array(w.c_j, float)[inv], I=np.array(w.c_Ik, float), i=np.array(w.c_ik, float),
                u=np.array(w.c_uk, float), d=np.array(w.c_dk, float))


def area(ref, ks, y):
    A = np.empty_like(y)
    for k, s in enumerate(ref.sl):
        m = ks == k
        A[m] = oracle.section(s['shape'], np.maximum(y[m], 0), ref.g[k])[0]
    return A


def flowfield(ref, spec, old, new, dt):
    """transporting flows and volumes, from observed heads, depths and flows"""
    c = ref.coeffs(old)
    f = dict(c=c)
    h, ho, H, Ho = new['h_Ik'], old['h_Ik'], new['H_j'], old['H_j']
    Iu, I1, IN, Ju, Jd, kk = ref.Iu, ref.I1, ref.IN, ref.Ju, ref.Jd, np.arange(ref.NK)
    s = 0.5 * c['B'] * ref.dx / dt
    f['Qup'], f['Qdn'] = new['Q_ik'] + s * (h - ho)[Iu], new['Q_ik'] - s * (h - ho)[Iu + 1]
    su, sd = 0.5 * c['Bu'] * ref.dxu / dt, 0.5 * c['Bd'] * ref.dxd / dt
    f['uup'], f['udn'] = new['Q_uk'] + su * (H - Ho)[Ju], new['Q_uk'] - su * (h - ho)[I1]
    f['dup'], f['ddn'] = new['Q_dk'] + sd * (h - ho)[IN], new['Q_dk'] - sd * (H - Ho)[Jd]
    f['A'] = area(ref, ref.k_i, (h[Iu] + h[Iu + 1]) / 2)
    f['Ap'] = area(ref, ref.k_i, (ho[Iu] + ho[Iu + 1]) / 2)
    f['Au'] = area(ref, kk, ((H - ref.z)[Ju] + h[I1]) / 2); f['Aup'] = area(ref, kk, ((Ho - ref.z)[Ju] + ho[I1]) / 2)
    f['Ad'] = area(ref, kk, ((H - ref.z)[Jd] + h[IN]) / 2); f['Adp'] = area(ref, kk, ((Ho - ref.z)[Jd] + ho[IN]) / 2)
    f['V'], f['Vp'] = c['Asj'] * (H - ref.z), c['Asj'] * (Ho - ref.z)
    return f


def pieces(ref, spec, p, f, a, b, new, old, dt, src):
    """every balance as (gain terms list); b: concentrations before, a: after.  Returns residual/scale per kind."""
    Iu, I1, IN, Ju, Jd = ref.Iu, ref.I1, ref.IN, ref.Ju, ref.Jd
    pos = lambda v: np.maximum(v, 0)
    neg = lambda v: np.maximum(-v, 0)

    def up(Q, left, right):                  # upwind advective flux, downstream positive
        return pos(Q) * left - neg(Q) * right

    def store(dx, A, Ap, c1, c0):
        return dx * (A * (c1 - c0) + (A - Ap) * c1) / dt
    # links: flux in at the upper face, out at the lower face
    g = 2 * p['D'] * f['A'] / ref.dx
    cu, cd, ci = a['I'][Iu], a['I'][Iu + 1], a['i']
    fin, fout = [up(f['Qup'], cu, ci), g * (cu - ci)], [up(f['Qdn'], ci, cd), g * (ci - cd)]
    S, Kt = store(ref.dx, f['A'], f['Ap'], a['i'], b['i']), p['Ki'] * ref.dx * f['A'] * a['i']
    out = {}
    out['link'] = ([*fin, -fout[0], -fout[1], -S, -Kt], ref.dx * f['A'] / dt * (np.abs(a['i']) + np.abs(b['i'])))
    gu, gd = 2 * p['Du'] * f['Au'] / ref.dxu, 2 * p['Dd'] * f['Ad'] / ref.dxd
    cj, c1 = a['j'][Ju], a['I'][I1]
    ufin, ufout = [up(f['uup'], cj, a['u']), gu * (cj - a['u'])], [up(f['udn'], a['u'], c1), gu * (a['u'] - c1)]
    Su = store(ref.dxu, f['Au'], f['Aup'], a['u'], b['u'])
    out['upstream_end'] = ([*ufin, -ufout[0], -ufout[1], -Su], ref.dxu * f['Au'] / dt * (np.abs(a['u']) + np.abs(b['u'])))
    cn, cj = a['I'][IN], a['j'][Jd]
    dfin, dfout = [up(f['dup'], cn, a['d']), gd * (cn - a['d'])], [up(f['ddn'], a['d'], cj), gd * (a['d'] - cj)]
    Sd = store(ref.dxd, f['Ad'], f['Adp'], a['d'], b['d'])
    out['downstream_end'] = ([*dfin, -dfout[0], -dfout[1], -Sd], ref.dxd * f['Ad'] / dt * (np.abs(a['d']) + np.abs(b['d'])))
    n = len(a['I'])
    fl = [np.zeros(n) for _ in range(4)]
    for t in range(2):
        fl[t][Iu + 1] = fout[t]; fl[t][I1] = ufout[t]
        fl[2 + t][Iu] = -fin[t]; fl[2 + t][IN] = -dfin[t]
    h, ho = new['h_Ik'], old['h_Ik']
    SI = ref.As * (h * (a['I'] - b['I']) + (h - ho) * a['I']) / dt
    KI = p['KI'] * ref.As * h * a['I']
    out['node'] = (fl + [src['I'], -SI, -KI], ref.As * h / dt * (np.abs(a['I']) + np.abs(b['I'])))
    fl = [np.zeros(ref.M) for _ in range(4)]
    for t in range(2):
        np.add.at(fl[t], Jd, dfout[t]); np.add.at(fl[2 + t], Ju, -ufin[t])
    ctl = np.zeros(ref.M)
    sc = np.zeros(ref.M)
    for tab, q in (('orifices', 'Q_o'), ('weirs', 'Q_w'), ('pumps', 'Q_p')):
        for e, row in enumerate(spec[tab]):
            u, d, Q = row['sj_0'], row['sj_1'], float(np.asarray(new[q])[e])
            m = max(Q, 0) * a['j'][u] - max(-Q, 0) * a['j'][d]
            ctl[u] -= m; ctl[d] += m
            sc[u] += abs(m); sc[d] += abs(m)
    SJ = (f['V'] * (a['j'] - b['j']) + (f['V'] - f['Vp']) * a['j']) / dt
    KJ = p['Kj'] * f['V'] * a['j']
    out['superjunction'] = (fl + [ctl, src['j'], -SJ, -KJ], sc + np.abs(f['V']) / dt * (np.abs(a['j']) + np.abs(b['j'])))
    tot = dict(decay=Kt.sum() + KI.sum())
    return out, tot, KJ


def case(r, i, rng, tier):
    from pipedream_solver.nquality import QualityBuilder
    kind = KINDS[i % len(KINDS)]
    spec, mix = network(rng, kind)
    nstep = 25 if tier == 'quick' else 60
    steps = nets.forcing(rng, spec, nstep, lateral=rng.random() < 0.5, qmax=float(rng.choice([0.3, 1.0])),
                         dts=(5.0, 10.0, 20.0) if rng.random() < 0.7 else (1.0, 60.0, 120.0))
    kw = dict(mobile_elements=False) if spec.get('internals') else {}
    if kind == 'permuted':
        kw['auto_permute'] = True
    m = nets.build(spec, **kw)
    ref = oracle.Ref(spec)
    perm = np.asarray(m.permutations) if kind == 'permuted' else np.arange(ref.M)
    inv = np.argsort(perm)
    q = quality(rng, spec, kind, ref)
    if kind != 'closed' and rng.random() < 0.7:        # concentrations imposed where heads are
        q['sj']['bc'] |= ref.bc
    p = params(q, ref)
    r.sample = dict(kind=kind, sections=mix, superjunctions=ref.M, superlinks=ref.NK, links=len(ref.k_i), steps=nstep,
                    controls=len(spec['orifices']) + len(spec['weirs']) + len(spec['pumps']))
    # flow first develops for a while, so that quality starts inside a history
    warm = int(rng.integers(1, 4))
    step = lambda e: m.step(**permuted(nets.step_kwargs(e), perm))
    for e in steps[:warm]:
        step(e)
    lim = {}
    if kind == 'limits':
        lim = dict(c_min=float(rng.choice([0.0, 1.0, 4.0])), c_max=float(rng.choice([8.0, 12.0, 15.0])))
    T = tables(q, perm)
    w = QualityBuilder(m, T[0], T[1], junction_params=T[2], link_params=T[3], **lim)
    w4 = QualityBuilder(m, T[0], T[1], junction_params=T[2], link_params=T[3], **lim)
    c0 = snapc(w, inv)
    want = dict(j=q['sj']['c_0'], I=q['J']['c_0'] if q['J'] else q['sl']['c_0'][ref.k_I], i=q['L']['c_0'] if q['L'] else q['sl']['c_0'][ref.k_i])
    r.count('initial', sum(map(len, want.values())))
    for k in want:
        r.check(np.array_equal(c0[k], want[k]), 'initial', 'concentrations at the start are not the declared initial ones (%s)' % k,
                got=c0[k], declared=want[k], spec=spec, quality=q, inputs=steps[:warm])
    # two more constituents in the same water, for linearity: w2 = other sources, w3 = combination
    q2 = q3 = w2 = w3 = None
    lam = rng.uniform(0.2, 2.0, 2)
    if kind not in ('limits',):
        mixc = lambda t, u: None if t is None else dict(t, c_0=u(t['c_0']))
        q2 = {k: mixc(t, lambda v: rng.uniform(0, 20, len(v))) for k, t in q.items()}
        q3 = {k: None if t is None else dict(t, c_0=lam[0] * t['c_0'] + lam[1] * q2[k]['c_0']) for k, t in q.items()}
        w2, w3 = [QualityBuilder(m, *t[:2], junction_params=t[2], link_params=t[3]) for t in (tables(q2, perm), tables(q3, perm))]
    ctl = bool(spec['orifices'] or spec['weirs'] or spec['pumps'])
    if mix == 'both' and len(set(s['shape'] for s in spec['sl'])) == 2:
        r.count('mixed_sections')
    kmax = max(v.max(initial=0) for v in (p['Kj'], p['KI'], p['Ki']))
    bcq = p['bc']
    u0 = float(q['sj']['c_0'][0])
    lo = hi = None
    H_all = []
    for n, e in enumerate(steps[warm:]):
        old = oracle.snap(m); old['H_j'] = old['H_j'][inv]
        step(e)
        new = oracle.snap(m); new['H_j'] = new['H_j'][inv]
        dt = e['dt']
        d = dict(spec=spec, quality=q, kw=kw, inputs=steps[:warm + n + 1], step=n)
        res = ref.residuals(old, old, new, e, dt)
        jok, kok = ref.masks(old, new, res)
        ref.advance(res)
        if not np.isfinite(new['H_j']).all() or (new['h_Ik'] < 0.02).any() or (new['H_j'] < ref.z + 0.02).any():
            r.count('shallow')
            return
        if max(np.abs(new[k]).max(initial=0) for k in ('Q_ik', 'Q_uk', 'Q_dk')) > 200 or new['h_Ik'].max() > 30:
            r.count('runaway')                          # water driven unstable by a long step: nothing to transport
            return
        # ---- sources
        def src(u=None):
            cj = np.full(ref.M, u) if u is not None else rng.uniform(0, 30, ref.M) * (rng.random(ref.M) < 0.7)
            cI = np.full(len(ref.k_I), u) if u is not None else rng.uniform(0, 30, len(ref.k_I)) * (rng.random(len(ref.k_I)) < 0.7)
            cb = np.full(ref.M, u) if u is not None else rng.uniform(0, 20, ref.M)
            return cj, cI, cb
        cj, cI, cb = src(u0 if kind == 'uniform' else None)
        if kind == 'closed':
            cj, cI = cj * 0, cI * 0
        Q0 = np.array(e['Q_in']); QI = np.array(e['Q_0Ik']) if 'Q_0Ik' in e else np.zeros(len(ref.k_I))
        a = dict(c_0j=cj[perm], c_0Ik=cI, c_bc=cb[perm], Q_0j=Q0[perm], Q_0Ik=QI)
        b4 = snapc(w, inv)
        x = {k: v.copy() for k, v in a.items()}
        if kind in ('plain', 'permuted') and rng.random() < 0.4:         # inputs left to their documented defaults
            r.count('defaults')
            for k in rng.permutation(list(a))[:int(rng.integers(1, 4))]:
                x.pop(k)
            if 'c_0j' not in x:
                cj = np.zeros(ref.M)
            if 'c_0Ik' not in x:
                cI = np.zeros(len(ref.k_I))
            if 'c_bc' not in x:
                cb = b4['j'].copy()
        usedt = {} if (kind == 'plain' and rng.random() < 0.3) else dict(dt=dt)
        # how much one transport step amplifies rounding: the same step from concentrations changed in the last digits
        jit = np.random.default_rng(n)
        for k_ in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk'):
            v_ = np.array(getattr(w, k_), float)
            setattr(w4, k_, v_ * (1 + 1e-11 * jit.normal(size=v_.shape)))
        w.step(**usedt, **x)
        af = snapc(w, inv)
        w4.step(dt=dt, **x)
        a4 = snapc(w4, inv)
        shake = max(np.abs(a4[k] - af[k]).max(initial=0) for k in af) / (1 + max(v.max(initial=0) for v in af.values())) / 1e-11
        ill = not shake <= 3e4                              # rounding swamps the recovery of the interior concentrations: mass budgets only
        r.peak('shake' if not ill else 'shake_ill', shake); r.count('ill_conditioned', ill)
        r.count('inputs')
        r.check(all(np.array_equal(x[k], a[k]) for k in x), 'inputs', 'an input array was modified', **d)
        r.check(all(np.isfinite(v).all() for v in af.values()), 'finite', 'a concentration is not finite', before=b4, after=af, **d)
        f = flowfield(ref, spec, old, new, dt)
        if (f['Qup'] < -1e-6).any() or (f['uup'] < -1e-6).any():
            r.count('reversed_flow')
        if ctl and any(np.any(np.abs(np.asarray(new[k])) > 1e-6) for k in ('Q_o', 'Q_w', 'Q_p') if k in new and new[k] is not None):
            r.count('controls')
        if kind == 'permuted':
            r.count('permuted')
        allc = lambda s: np.concatenate([s[k] for k in 'jIiud'])
        if lim:
            v = allc(af)
            r.count('limits', len(v))
            r.check(v.min() >= lim['c_min'] - 1e-12 and v.max() <= lim['c_max'] + 1e-12, 'limits', 'a concentration leaves the declared limits',
                    limits=lim, low=v.min(), high=v.max(), **d)
            continue
        # ---- local balances
        out, tot, KJ = pieces(ref, spec, p, f, af, b4, new, old, dt, dict(j=Q0 * cj, I=QI * cI))
        clamped = allc(af).min() <= 0                      # concentrations are documented to be cut at c_min
        r.count('cut', clamped)
        mag = allc(af).max(initial=1e-3); qmax = max(np.abs(new[k]).max(initial=0) for k in ('Q_ik', 'Q_uk', 'Q_dk'))
        for key, (terms, s) in out.items():
            rs = sum(terms); sc = sum(np.abs(t) for t in terms) + s + 1e-9 + (3e-3 * qmax if key in ('link', 'node') else 1e-8) * mag
            ok = np.ones(len(rs), bool)
            if key == 'superjunction':
                ok = ~bcq
            if clamped or (ill and key in ('link', 'node')):
                continue
            v = np.abs(rs) / sc
            v[~ok] = 0
            r.count(key, ok.sum()); r.peak(key, v.max(initial=0))
            if not (v <= TOL[key] + (1e-8 * shake if key in ('link', 'node') else 0)).all():
                k = int(np.argmax(v))
                r.violate(key, 'mass entering and leaving does not match the change of stored mass and decay (%s %d)' % (key, k),
                          residual=rs[k], scale=sc[k], shake=shake, terms=[float(t[k]) for t in terms], before=b4, after=af, dt=dt, **d)
        # ---- pinned concentrations
        if bcq.any():
            r.count('pinned', bcq.sum())
            r.check(np.abs(af['j'] - cb)[bcq].max() <= 1e-9 * (1 + cb.max()), 'pinned', 'a boundary concentration is not the imposed one',
                    imposed=cb, got=af['j'], **d)
        # ---- bounds: every new value is a weighted mean of old and incoming ones
        flow_ok = all((np.abs(res[k][0]) / res[k][1]).max(initial=0) < 1e-9 for k in ('cont',)) and jok.all() and kok.all() \
            and (np.abs(res['mass'][0]) / res['mass'][1])[~ref.bc].max(initial=0) < 1e-9 and not ctl and not ill
        if flow_ok:
            # how far the area change departs from width times depth change (zero for prismatic walls)
            def fac(A, dA, B, dh):
                return (dA - B * dh) / A
            h, ho, H, Ho = new['h_Ik'], old['h_Ik'], new['H_j'], old['H_j']
            c = f['c']; dh = h - ho; dH = H - Ho
            nl = np.concatenate([fac(f['A'], f['A'] - f['Ap'], c['B'], (dh[ref.Iu] + dh[ref.Iu + 1]) / 2),
                                 fac(f['Au'], f['Au'] - f['Aup'], c['Bu'], (dH[ref.Ju] + dh[ref.I1]) / 2),
                                 fac(f['Ad'], f['Ad'] - f['Adp'], c['Bd'], (dH[ref.Jd] + dh[ref.IN]) / 2)])
            free = ref.bc & ~bcq          # head-boundary junctions without imposed concentration exchange water with outside
            if nl.min() > -0.5:
                src_hi = np.concatenate([allc(b4), cj[Q0 > 0], cI[QI > 0], cb[bcq]])
                up_ = src_hi.max() / (1 + min(nl.min(), 0)); dn_ = src_hi.min() / (1 + max(nl.max(), 0)) / (1 + kmax * dt)
                if not free.any():
                    v = allc(af)
                    r.count('bounds', len(v)); r.count('decay', len(v) if kmax else 0)
                    tol = (1e-4 + 1e-9 * shake) * (1 + src_hi.max())
                    if not (v.max() <= up_ + tol and v.min() >= dn_ - tol):
                        r.violate('bounds', 'a concentration leaves the range of initial and incoming values', low=v.min(), high=v.max(),
                                  allowed=[dn_, up_], before=b4, after=af, **d)
                    if kind == 'uniform':
                        r.count('uniform', len(v))
                        w_ = np.abs(nl).max()
                        r.peak('uniform_departure', np.abs(v - u0).max() / u0)
                        lo_ = min(allc(b4).min(), u0) / (1 + max(nl.max(), 0)); hi_ = max(allc(b4).max(), u0) / (1 + min(nl.min(), 0))
                        tol = (1e-4 + 1e-9 * shake) * u0
                        r.check(v.min() >= lo_ - tol and v.max() <= hi_ + tol, 'uniform', 'a uniform concentration did not stay uniform',
                                low=v.min(), high=v.max(), value=u0, allowed=[lo_, hi_], **d)
        # ---- budget of the whole network
        if not clamped:
            mass = lambda s, g: ((g['A'] if s is af else g['Ap']) * ref.dx * s['i']).sum() + ((g['Au'] if s is af else g['Aup']) * ref.dxu * s['u']).sum() \
                + ((g['Ad'] if s is af else g['Adp']) * ref.dxd * s['d']).sum() + (ref.As * (new if s is af else old)['h_Ik'] * s['I']).sum() \
                + ((g['V'] if s is af else g['Vp']) * s['j'])[~bcq].sum()
            m1, m0 = mass(af, f), mass(b4, f)
            second = ((f['A'] - f['Ap']) * ref.dx * (af['i'] - b4['i'])).sum() + ((f['Au'] - f['Aup']) * ref.dxu * (af['u'] - b4['u'])).sum() \
                + ((f['Ad'] - f['Adp']) * ref.dxd * (af['d'] - b4['d'])).sum() + (ref.As * (new['h_Ik'] - old['h_Ik']) * (af['I'] - b4['I'])).sum() \
                + ((f['V'] - f['Vp']) * (af['j'] - b4['j']))[~bcq].sum()
            tj = out['superjunction'][0]
            inflow = (Q0 * cj)[~bcq].sum() + (QI * cI).sum()
            # boundary superjunctions: what their superlinks and control structures carry in
            bal = sum(tj[:5])                                    # fluxes into each superjunction
            inflow -= bal[bcq].sum()
            dec = tot['decay'] + KJ[~bcq].sum()
            rs = m1 - m0 + second - dt * (inflow - dec)
            sc = abs(m1) + abs(m0) + dt * (np.abs(bal).sum() + abs(dec) + np.abs(Q0 * cj).sum()) + 1e-9
            r.count('budget'); r.peak('budget', abs(rs) / sc)
            if not abs(rs) <= (1e-7 + 1e-11 * min(shake, 1e7)) * sc:
                r.violate('budget', 'the mass in the network changes by something other than what enters, leaves and decays',
                          residual=rs, shake=shake, mass=[m0, m1], inflow=dt * inflow, decayed=dt * dec, before=b4, after=af, **d)
        # ---- linearity
        if ill:
            w2 = w3 = None
        if w2 is not None:
            cj2, cI2, cb2 = src()
            if kind == 'closed':
                cj2, cI2 = cj2 * 0, cI2 * 0
            Qs = dict(Q_0j=Q0[perm], Q_0Ik=QI)
            w2.step(dt=dt, c_0j=cj2[perm], c_0Ik=cI2, c_bc=cb2[perm], **Qs)
            w3.step(dt=dt, c_0j=(lam[0] * cj + lam[1] * cj2)[perm], c_0Ik=lam[0] * cI + lam[1] * cI2,
                    c_bc=(lam[0] * cb + lam[1] * cb2)[perm], **Qs)
            s1, s2, s3 = af, snapc(w2, inv), snapc(w3, inv)
            if min(allc(s1).min(), allc(s2).min(), allc(s3).min()) <= 0:
                w2 = w3 = None                 # cut at zero: no longer linear
            else:
                v = np.abs(allc(s3) - lam[0] * allc(s1) - lam[1] * allc(s2)).max() / (1 + allc(s3).max())
                r.count('linear', len(allc(s3))); r.peak('linear', v)
                r.check(v <= 1e-4 + 1e-9 * shake, 'linear', 'concentrations do not superpose', worst=v, factors=lam, first=s1, second=s2, combined=s3, **d)
                r.check(np.array_equal(allc(snapc(w, inv)), allc(af)), 'isolated', 'another constituent in the same water changed this one', **d)
        r.seen(kind, mix, bool((f['Qup'] < 0).any()), bool(kmax), bool(bcq.any()), ctl, bool(spec.get('internals')), bool(q['J']))


def permuted(k, p):
    for f in ('Q_in', 'H_bc'):
        if f in k:
            k[f] = k[f][p]
    return k
