"""Boundary heads are met, depths stay within their bounds and every state stays finite under hostile workloads."""
import numpy as np
from vlib import traj, nets

PROP = 'C05'
N = {'quick': 400, 'thorough': 12000}
NEED = ['boundary', 'boundary_held', 'head_bounds', 'depth_bounds', 'finite', 'at_floor', 'at_ceiling']
RULE = ('random network under one of: normal forcing, dry start, inflow spikes, draining, steep slopes, long steps, '
        'low ceilings; every state after every step is one evaluation; behaviours are (workload, bound reached, storage, '
        'controls)')
ASSUME = ['boundary heads supplied lie inside the junction (between its invert and its maximum depth)',
          'with very long time steps a trajectory is followed until a depth exceeds a kilometre; boundary heads are judged below that depth']
MODES = ['normal', 'dry', 'spike', 'drain', 'steep', 'longdt', 'ceiling', 'hold']


def case(r, i, rng, tier):
    mode = MODES[i % len(MODES)]
    force = {}
    if mode == 'dry':
        force = dict(hj_range=(-1.0, 0.2))
    if mode == 'steep':
        force = dict(slope=float(rng.choice([0.02, 0.05])), hj_range=(-1.0, 1.0))
    if mode == 'ceiling':
        force = dict(max_depth=True)
    if mode == 'hold':
        force = dict(bc=2, M=4)
    spec, kw, steps = traj.scenario(rng, int(rng.integers(0, 100)), 80, **force)
    if mode == 'ceiling' or rng.random() < 0.2:
        for s in spec['sl']:
            if rng.random() < 0.5:
                s['max_depth'] = float(rng.uniform(0.5, 2.0))
            else:
                s['max_depth'] = float('inf')
    for e in steps:
        q = np.array(e['Q_in'])
        if mode == 'spike' and rng.random() < 0.2:
            q = q * rng.choice([0, 10, 40.0], size=len(q))
        if mode == 'drain':
            q = -np.abs(q) - 0.05
        if mode == 'longdt':
            e['dt'] = float(rng.choice([60, 300, 900, 1e-3]))
        if mode == 'ceiling':
            q = np.abs(q) * 3
        e['Q_in'] = [float(v) for v in q]
        if mode == 'hold' or (rng.random() < 0.03):
            e.pop('H_bc', None)
        if rng.random() < 0.05:
            e.pop('Q_in', None)
        for u in ('u_o', 'u_w', 'u_p'):
            if u in e and rng.random() < 0.05:
                e.pop(u)
    m = nets.build(spec, **kw)
    r.sample = dict(mode=mode, **traj.describe(spec, kw))
    z = np.array([s['z_inv'] for s in spec['sj']]); md = np.array([s['max_depth'] for s in spec['sj']])
    bc = np.array([s['bc'] for s in spec['sj']])
    mind = kw.get('min_depth', 1e-5)
    R = traj.oracle.Ref(spec)
    maxh = R.max_h[R.k_I]
    inner = np.ones(len(maxh), bool); inner[R.I1] = False; inner[R.IN] = False
    held = m.H_j.copy()
    for n, e in enumerate(steps):
        H0 = m.H_j.copy()
        if e.get('H_bc') is not None:
            want = np.minimum(np.maximum(np.array(e['H_bc']), z + 1e-3), z + np.where(np.isfinite(md), md, 1e9) * 0.999)
            e['H_bc'] = [float(v) for v in want]
        m.step(**nets.step_kwargs(e))
        H, h = m.H_j, m.h_Ik
        for f in ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p', 'A_ik', 'A_uk', 'A_dk', 'B_ik', 'Pe_ik', 'R_ik', 'A_sj', 'V_j'):
            v = getattr(m, f, None)
            if v is None:
                continue
            r.count('finite', np.size(v))
            if not np.isfinite(v).all():
                j = int(np.flatnonzero(~np.isfinite(v))[0])
                r.violate('finite', '%s[%d] is %r after step %d (%s workload)' % (f, j, float(np.ravel(v)[j]), n, mode), spec=spec, inputs=e)
            if f[0] in 'ABPRV' and not (np.asarray(v) >= -1e-12).all():
                j = int(np.argmin(v))
                r.violate('nonneg', '%s[%d] is negative after step %d (%s workload)' % (f, j, n, mode), value=np.ravel(v)[j], spec=spec, inputs=e)
        tol = 1e-9 * (1 + np.abs(z))
        bad = (H < z - tol) | (H > z + md + tol)
        r.count('head_bounds', len(H))
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            r.violate('head_bounds', 'head of superjunction %d is outside its invert and maximum depth' % j, step=n, H=H[j], z=z[j],
                      max_depth=md[j], spec=spec, inputs=e)
        r.count('at_ceiling', (H > z + md - 1e-9).sum() + (h > maxh - 1e-9).sum())
        r.count('at_floor', (H <= z + 1e-9).sum() + (h <= mind * (1 + 1e-9)).sum())
        r.count('depth_bounds', len(h))
        bad = (h < mind * (1 - 1e-9)) | (inner & (h > np.maximum(maxh, mind) + 1e-9))
        if bad.any():
            I = int(np.flatnonzero(bad)[0])
            r.violate('depth_bounds', 'interior depth %d is outside [minimum depth, maximum depth]' % I, step=n, h=h[I],
                      max_depth=maxh[I], spec=spec, inputs=e)
        # heads of kilometres (very long steps are not stable) leave rounding errors of that size in the solve
        calm = max(np.abs(H - z).max(), np.abs(H0 - z).max()) < 1e3
        r.count('runaway', not calm)
        if mode == 'longdt' and not calm:
            break
        if bc.any() and calm:
            if e.get('H_bc') is not None:
                d = np.abs(H - np.array(e['H_bc']))[bc]; key = 'boundary'
            else:
                d = np.abs(H - H0)[bc]; key = 'boundary_held'
            r.count(key, bc.sum())
            if not (d <= 1e-8 * (1 + np.abs(H[bc]))).all():
                j = int(np.flatnonzero(bc)[np.argmax(d)])
                r.violate(key, 'boundary superjunction %d is not at its prescribed head' % j, step=n, H=H[j], off=d.max(), spec=spec, inputs=e)
            r.seen(key, mode)
        r.seen(mode, 'floor' if (H <= z + 1e-9).any() else '', 'ceil' if (H > z + md - 1e-9).any() else '',
               'hceil' if (h > maxh - 1e-9).any() else '', bool(spec['orifices']), bool(spec['weirs']), bool(spec['pumps']))
