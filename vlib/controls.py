"""Reference equations of orifices, weirs and pumps: reported flow at given heads, and the linear
exchange a step uses (about the previous flow)."""
import numpy as np
from vlib import nets, oracle, traj

G = oracle.G


def orifice(row, z, Hu, Hd, u, A):
    """(flow, regime) through open area A."""
    sill = z + row['z_o']
    y = row['y_max'] * u * (row['orientation'] == 'side')
    hi, lo = max(Hu, Hd), min(Hu, Hd)
    s = 1.0 if Hu >= Hd else -1.0
    if row.get('oneway') and Hd >= Hu:
        return 0.0, 'flap'
    if hi > sill + y:
        if lo > sill + y / 2:
            head, reg = hi - lo, 'submerged'
        else:
            head, reg = hi - sill - y / 2, 'free'
    elif hi > sill:
        head, reg = hi - sill, 'partial'
    else:
        return 0.0, 'dry'
    return s * row['C'] * A * np.sqrt(2 * G * abs(head)), reg


def orifice_area(row, z, Hu, Hd, u):
    if u <= 0:
        return 0.0
    h = max(Hu, Hd) - z - row['z_o']
    if 'shape' in row:
        shape, g = row['shape'], [row['g1'] * u, row['g2'], row['g3'], 0, 0, 0, 0]
    else:
        shape, g = 'rect_open', [np.sqrt(row['A']) * u, np.sqrt(row['A']), 0, 0, 0, 0, 0]
    return float(oracle.section(shape, np.array([h]), g)[0][0])


def orifice_linear(row, z, Ho, Hn, u, A, Qprev):
    """Exchange in the step's balance: coefficients at old heads (Ho), applied to new heads (Hn)."""
    Q, reg = orifice(row, z, Ho[0], Ho[1], u, A)
    if reg in ('dry', 'flap') or Qprev == 0:
        return 0.0
    gam = 2 * G * row['C'] ** 2 * A ** 2 / abs(Qprev)
    sill = z + row['z_o']
    y = row['y_max'] * u * (row['orientation'] == 'side')
    if reg == 'submerged':
        return gam * (Hn[0] - Hn[1])
    up = Ho[0] >= Ho[1]
    ref = sill + (y / 2 if reg == 'free' else 0)
    return gam * (Hn[0] - ref) if up else -gam * (Hn[1] - ref)


def weir(row, z, Hu, Hd, u):
    crest = z + row['z_w'] + (1 - u) * row['y_max']
    hi, lo = max(Hu, Hd), min(Hu, Hd)
    s = 1.0 if Hu >= Hd else -1.0
    if hi <= crest:
        return 0.0, 'dry', 0.0
    H, reg = (hi - lo, 'submerged') if lo > crest else (hi - crest, 'free')
    return s * (row['Cr'] * row['L'] * H + row['Ct'] * row['s'] * H ** 2) * np.sqrt(H), reg, H


def weir_linear(row, z, Ho, Hn, u, Qprev):
    Q, reg, H = weir(row, z, Ho[0], Ho[1], u)
    if reg == 'dry' or Qprev == 0:
        return 0.0
    gam = (row['Cr'] * row['L'] * H + row['Ct'] * row['s'] * H ** 2) ** 2 / abs(Qprev)
    crest = z + row['z_w'] + (1 - u) * row['y_max']
    if reg == 'submerged':
        return gam * (Hn[0] - Hn[1])
    return gam * (Hn[0] - crest) if Ho[0] >= Ho[1] else -gam * (Hn[1] - crest)


def pump(row, z, Hu, Hd, u):
    if not Hu > z + row['z_p']:
        return 0.0, 'dry'
    dH = Hd - Hu
    c = min(max(dH, row['dH_min']), row['dH_max'])
    reg = 'low' if dH < row['dH_min'] else 'high' if dH > row['dH_max'] else 'curve'
    if c >= row['a_p']:
        reg = 'shutoff'
    return (u / row['b_p'] * max(row['a_p'] - c, 0.0)) ** (1 / row['c_p']), reg


def pump_linear(row, z, Ho, Hn, u, Qprev):
    if not Ho[0] > z + row['z_p']:
        return 0.0
    d = abs(Qprev) ** (row['c_p'] - 1) * row['b_p']
    if d == 0:
        return 0.0
    gam = u / d
    dH = Ho[1] - Ho[0]
    if row['dH_min'] < dH < row['dH_max']:
        return gam * (row['a_p'] - (Hn[1] - Hn[0]))
    return gam * (row['a_p'] - min(max(dH, row['dH_min']), row['dH_max']))


KIND = {'o': ('orifices', 'u_o', 'Q_o'), 'w': ('weirs', 'u_w', 'Q_w'), 'p': ('pumps', 'u_p', 'Q_p')}


def margin(kind, row, z, Hu, Hd, u):
    """Distance of a state from the nearest regime switch."""
    if kind == 'o':
        y = row['y_max'] * u * (row['orientation'] == 'side')
        s = z + row['z_o']
        pts = [Hu - Hd]
        for H in (Hu, Hd):
            pts += [H - s, H - s - y, H - s - y / 2]
    elif kind == 'w':
        c = z + row['z_w'] + (1 - u) * row['y_max']
        pts = [Hu - Hd, Hu - c, Hd - c]
    else:
        pts = [Hu - z - row['z_p'], Hd - Hu - row['dH_min'], Hd - Hu - row['dH_max']]
    return min(abs(p) for p in pts)


def vary(rng, spec, kind):
    """Richer control structures than the default workload's."""
    if kind == 'o':
        plain = rng.random() < 0.25
        for r in spec['orifices']:
            if plain:
                for k in ('shape', 'g1', 'g2', 'g3'):
                    r.pop(k)
                r['y_max'] = float(np.sqrt(r['A']))
            else:
                r['shape'] = str(rng.choice(['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal', 'parabolic', 'elliptical', 'wide']))
                r['g3'] = float(rng.uniform(0.2, 1.0))
        if rng.random() < 0.3:
            for r in spec['orifices']:
                r.pop('oneway')
    elif kind == 'p':
        for r in spec['pumps']:
            if rng.random() < 0.3:
                r['dH_max'] = r['a_p'] * float(rng.uniform(1.0, 1.5))
            if rng.random() < 0.3:
                r['dH_min'] = -float(rng.uniform(0, 2))


def monitor(r, kind, ref, spec, e, old, new, quiet, A_old=None, where='run', **info):
    """Reported flows at the new heads, and the exchange in the balance of quiet junctions."""
    tab, uk, qk = KIND[kind]
    u = e.get(uk) or [0.0] * len(spec[tab])
    z = ref.z
    got = new[qk]
    V = ref.storage_volume(old['H_j'])
    for a, row in enumerate(spec[tab]):
        i, j = row['sj_0'], row['sj_1']
        Hu, Hd = new['H_j'][i], new['H_j'][j]
        near = margin(kind, row, z[i], Hu, Hd, u[a]) < 1e-9
        if kind == 'o':
            A = orifice_area(row, z[i], old['H_j'][i], old['H_j'][j], u[a])
            Q, reg = orifice(row, z[i], Hu, Hd, u[a], A)
            cap = V[i if Hu > Hd else j] / e['dt']
            if u[a] <= 0:
                reg = 'closed'
            if abs(Q) > cap:
                Q = np.sign(Q) * cap; reg = 'limited'
        elif kind == 'w':
            Q, reg, _ = weir(row, z[i], Hu, Hd, u[a])
        else:
            Q, reg = pump(row, z[i], Hu, Hd, u[a])
            if u[a] == 0:
                reg = 'off'
        if near:
            r.count('at_switch')
            continue
        r.count(reg)
        r.seen(where, reg, 'forward' if Q > 0 else 'reverse' if Q < 0 else 'none', row.get('shape', 'plain') if kind == 'o' else row.get('c_p', ''),
               row.get('orientation', ''), row.get('oneway', ''))
        tol = 1e-7 * abs(Q) + 1e-7
        r.check(abs(got[a] - Q) <= tol, 'reported', '%s %d reports %.9g, its equation gives %.9g (%s)' % (tab[:-1], a, got[a], Q, reg),
                row=row, heads=[Hu, Hd], setting=u[a], z=z[i], old_heads=[old['H_j'][i], old['H_j'][j]], **info)
        if reg in ('dry', 'closed', 'off', 'flap'):
            r.check(got[a] == 0, 'no_flow', '%s %d passes %.3g while %s' % (tab[:-1], a, got[a], reg), row=row, **info)
        r.check(got[a] * (Hu - Hd) >= -1e-12 if kind != 'p' else got[a] >= 0, 'direction', '%s %d flows against the head' % (tab[:-1], a),
                row=row, flow=got[a], heads=[Hu, Hd], **info)


def exchange(r, kind, ref, spec, e, old, new, out, quiet, **info):
    """Every junction's balance closes with the linear exchange of its controls."""
    res, scale = (v.copy() for v in out['mass'])
    size = np.zeros(ref.M); mine = np.zeros(ref.M, bool); skip = ref.bc.copy()
    z = ref.z
    for k, (tab, uk, qk) in KIND.items():
        u = e.get(uk) or [0.0] * len(spec[tab])
        for a, row in enumerate(spec[tab]):
            i, j = row['sj_0'], row['sj_1']
            Ho = (old['H_j'][i], old['H_j'][j]); Hn = (new['H_j'][i], new['H_j'][j])
            q = old[qk][a]
            if k == 'o':
                A = orifice_area(row, z[i], Ho[0], Ho[1], u[a])
                Q = orifice_linear(row, z[i], Ho, Hn, u[a], A, q)
            elif k == 'w':
                Q = weir_linear(row, z[i], Ho, Hn, u[a], q)
            else:
                Q = pump_linear(row, z[i], Ho, Hn, u[a], q)
            if margin(k, row, z[i], Ho[0], Ho[1], u[a]) < 1e-9:
                skip[[i, j]] = True
            if 0 < abs(q) < 1e-6:
                skip[[i, j]] = True            # coefficient of the order 1/|Q|
            s = abs(Q) * 1e2
            res[j] += Q; res[i] -= Q
            scale[[i, j]] += abs(Q) + (abs(Q) / max(abs(Hn[0] - Hn[1]), 1e-6)) * 1e-6
            if k == kind:
                mine[[i, j]] |= Q != 0
    ok = quiet & ~skip & mine
    for jn in np.flatnonzero(ok):
        r.check(abs(res[jn]) <= 1e-6 * scale[jn] + 1e-7, 'exchange', 'junction %d does not balance with the flow exchanged through its %s'
                % (jn, KIND[kind][0]), residual=res[jn], scale=scale[jn], **info)
        r.peak('exchange', abs(res[jn]) / scale[jn])


def case_for(kind, r, i, rng, n=40):
    force = dict(controls='opw'.replace(kind, '') [: int(rng.integers(0, 3))] + kind) if i % 3 == 0 else dict(controls=kind)
    force.update(tabular=bool(i % 5 == 0), ends=bool(i % 4 == 0), M=int(rng.integers(2, 8)), hj_range=(-0.3, 2.0))
    spec = nets.rand_net(rng, **force)
    vary(rng, spec, kind)
    steps = nets.forcing(rng, spec, n, qmax=float(rng.choice([0.3, 1.5, 4.0])))
    kw = {}
    run = traj.Run(spec, kw)
    ref = run.ref
    d = dict(network=spec, steps=steps)
    r.sample = traj.describe(spec, kw)
    tab, uk, qk = KIND[kind]
    if i % 2:
        for s, e, old, cur, new, out, jok, kok, quiet in run.steps(steps):
            monitor(r, kind, ref, spec, e, old, new, quiet, network=spec, steps=steps, step=s)
            exchange(r, kind, ref, spec, e, old, new, out, quiet, network=spec, steps=steps, step=s)
    else:
        # heads placed around the structures' levels, previous flow arbitrary
        for e in steps:
            e = dict(e, dt=float(rng.choice([1e-3, 0.1, 5.0])))
            for u in ('u_o', 'u_w', 'u_p'):
                if u in e:
                    e[u] = [float(rng.choice([0.0, 1.0, rng.random(), rng.random()])) for _ in e[u]]
            if rng.random() < 0.05:
                e.pop(uk, None)
            H = ref.z + rng.uniform(0, 2.2, ref.M) * rng.choice([0.05, 1.0, 1.0, 1.0], ref.M)
            for row in spec[tab]:
                if rng.random() < 0.7:
                    off = row.get('z_o', row.get('z_w', row.get('z_p', 0)))
                    for j in (row['sj_0'], row['sj_1']):
                        H[j] = max(ref.z[j] + 1e-3, ref.z[row['sj_0']] + off + rng.uniform(-0.5, 1.5))
                    if kind == 'p':
                        H[row['sj_1']] = max(ref.z[row['sj_1']] + 1e-3, H[row['sj_0']] + rng.uniform(-1, 1.3) * row['a_p'])
            if 'H_bc' in e:
                e['H_bc'] = [float(v) for v in H]
            run.m.load_state({'H_j': H.copy(), qk: rng.uniform(-2, 2, len(spec[tab])) if kind != 'p' else rng.uniform(0, 2, len(spec[tab]))})
            old = oracle.snap(run.m)
            run.m.step(**nets.step_kwargs(e))
            new = oracle.snap(run.m)
            if not np.isfinite(new['H_j']).all():
                r.violate('finite', 'heads are not finite', **d)
            monitor(r, kind, ref, spec, e, old, new, None, where='posed', inputs=e, network=spec)
            run.m.load_state({'Q_ik': np.zeros_like(new['Q_ik']), 'Q_uk': np.zeros(ref.NK), 'Q_dk': np.zeros(ref.NK), 'h_Ik': np.full(len(new['h_Ik']), 0.5)})
