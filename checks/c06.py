"""A level, motionless water surface with no inflow stays level and motionless."""
import numpy as np
from vlib import traj, nets

PROP = 'C06'
N = {'quick': 400, 'thorough': 12000}
NEED = ['level', 'still', 'control_still']
RULE = ('random submerged network (all sections, storages, submerged or dry gates, boundary heads at the common level) started '
        'level and still; every head, depth and flow over 40 steps is one evaluation; behaviours are (shape, surcharged, '
        'controls, boundary, step size)')
ASSUME = ['every junction and link invert is below the surface; no pumps (they do work); orifices fully submerged or fully dry (a partly submerged orifice is modelled as discharging freely); end lengths only on level links',
          'gate openings change by at most a factor of two between steps: the exchange coefficient divides by the previous flow, which is rounding noise here']


def case(r, i, rng, tier):
    ends = i % 6 == 5
    spec = nets.rand_net(rng, controls=['', 'o', 'w', 'ow'][i % 4], tabular=bool(i % 2), friction=('cm', 'hw', 'dw'),
                         variable_losses=bool(i % 3 == 0), ctrl=bool(i % 5 == 0), flat=ends, offsets=not ends, ends=ends,
                         slope=float(rng.choice([0.001, 0.004, 0.02])))
    z = np.array([s['z_inv'] for s in spec['sj']])
    top = max(z[s['sj_0']] + s['in_offset'] for s in spec['sl']); top = max(top, max(z[s['sj_1']] + s['out_offset'] for s in spec['sl']), z.max())
    surf = top + float(rng.choice([0.05, 0.3, 1.0, 4.0])) * rng.uniform(0.5, 1)
    for s in spec['sj']:
        s['h_0'] = float(surf - s['z_inv'])
    # gates that stay fully submerged at every opening, or entirely above the surface
    for o in spec['orifices']:
        zu, zd = z[o['sj_0']], z[o['sj_1']]
        if surf - zu > 0.06 and rng.random() < 0.7:
            o['z_o'] = float(rng.uniform(0, 0.4) * (surf - zu))
            o['y_max'] = float(rng.uniform(0.2, 0.9) * (surf - zu - o['z_o']))
            o['g1'] = o['y_max']
        else:
            o['z_o'] = float(surf - zu + 0.1)
    kw = {}
    if rng.random() < 0.3:
        nets.add_internals(rng, spec)
        kw['mobile_elements'] = False
    if rng.random() < 0.2:
        kw['inertial_damping'] = True
    m = nets.build(spec, **kw)
    ref = traj.oracle.Ref(spec)
    h = surf - ref.z_I
    m.load_state({'H_j': np.full(len(z), surf), 'h_Ik': h.copy(), 'Q_ik': np.zeros(len(ref.k_i)),
                  'Q_uk': np.zeros(ref.NK), 'Q_dk': np.zeros(ref.NK)})
    m.t = 0.0
    r.sample = dict(surface=surf, **traj.describe(spec, kw))
    no, nw = len(spec['orifices']), len(spec['weirs'])
    sc = 1 + abs(surf)
    bcs = any(s['bc'] for s in spec['sj'])
    gates = np.where(rng.random(no) < 0.15, 0, rng.uniform(0.1, 1, no))
    for n in range(40):
        e = dict(dt=float(rng.choice([1, 10, 60, 300])), Q_in=np.zeros(len(z)))
        if bcs and rng.random() < 0.7:
            e['H_bc'] = np.full(len(z), surf)
        if no:
            e['u_o'] = gates * rng.uniform(0.5, 1, no)
        if nw:
            e['u_w'] = rng.random(nw)
        m.step(**e)
        d = np.abs(m.H_j - surf).max()
        dh = np.abs(m.h_Ik - h).max()
        r.count('level', len(z) + len(h)); r.peak('level_controls' if no else 'level', max(d, dh))
        q = max(np.abs(m.Q_ik).max(), np.abs(m.Q_uk).max(), np.abs(m.Q_dk).max())
        r.count('still', len(ref.k_i)); r.peak('still_controls' if no else 'still', q)
        for k in range(ref.NK):
            r.seen(ref.sl[k]['shape'], bool(h[ref.IN[k]] > ref.g[k, 0]), bool(no), bool(nw), bcs, ends)
        if not max(d, dh) <= (1e-5 if no else 1e-8):
            r.violate('level', 'a level surface moved by %.3g m without any inflow' % max(d, dh), step=n, spec=spec, inputs=e, surface=surf)
        if not q <= (1e-3 if no else 1e-7) * (1 + ref.links_geom(np.maximum(h[ref.Iu], 0))[0].max()):
            r.violate('still', 'water at rest started to flow (%.3g m3/s)' % q, step=n, spec=spec, inputs=e, surface=surf)
        for f in ('Q_o', 'Q_w'):
            v = getattr(m, f, None)
            if v is not None and np.size(v):
                r.count('control_still', np.size(v)); r.peak('control_still', np.abs(v).max())
                if not np.abs(v).max() <= 1e-2:
                    r.violate('control_still', '%s: flow through a control between equal heads' % f, step=n, Q=v, spec=spec, inputs=e)
