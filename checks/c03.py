"""Momentum balance of every link: inertia, convection, friction, bed slope, pressure, local control."""
import numpy as np
from vlib import traj

PROP = 'C03'
N = {'quick': 400, 'thorough': 12000}
NEED = ['momentum', 'momentum_loss', 'momentum_loss_reverse', 'momentum_cm', 'momentum_hw', 'momentum_dw', 'momentum_damped']
RULE = ('random network + forcing per case, mixed sections, three friction laws, optional in-link controls and inertial '
        'damping; one evaluation is one link over one step in a superlink with no depth at its floor or ceiling; '
        'behaviours are (friction, shape, control, damping, position, flow direction, iteration)')
ASSUME = ['superlinks in which an interior depth was clamped at the documented floor/ceiling, and links with less than 0.1 mm of water, are not evaluated']


def case(r, i, rng, tier):
    hot = i % 4 == 1
    spec, kw, steps = traj.scenario(rng, i // 4 if i % 2 else int(rng.integers(16)), 60, **(dict(slope=0.02) if hot else dict(ctrl=True) if i % 4 == 2 else {}))
    if hot:
        kw['inertial_damping'] = True
    R = traj.Run(spec, kw)
    ref = R.ref
    r.sample = traj.describe(spec, kw)
    pos = np.full(len(ref.k_i), 'mid'); pos[ref.i1] = 'first'; pos[ref.iN] = 'last'
    damp = bool(kw.get('inertial_damping'))
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(steps, refine=0.15, rng=rng):
        res, sc = out['mom']
        ok = kok[ref.k_i] & ~out['thin_i']
        q = np.where(ok, np.abs(res) / sc, 0)
        r.count('momentum', ok.sum()); r.peak('momentum', q.max())
        r.count('momentum_loss', (ok & ref.ctrl).sum())
        r.count('momentum_loss_reverse', (ok & ref.ctrl & (cur['Q_ik'] < -1e-3)).sum())
        for f in ('cm', 'hw', 'dw'):
            r.count('momentum_' + f, (ok & (ref.fm == f)).sum())
        if damp:
            r.count('momentum_damped', (ok & (out['coef']['sig'] < 1)).sum())
        for l in rng.integers(0, len(q), 2):
            if ok[l]:
                k = ref.k_i[l]
                r.seen(ref.fm[l], ref.sl[k]['shape'], bool(ref.ctrl[l]), damp and bool(out['coef']['sig'][l] < 1), pos[l],
                       bool(new['Q_ik'][l] < 0), cur is not old)
        if not (q <= 1e-6).all():
            l = int(np.argmax(np.where(np.isnan(q), np.inf, q))); k = int(ref.k_i[l])
            r.violate('momentum', 'link %d (%s of superlink %d, %s, %s): momentum terms do not balance'
                      % (l, pos[l], k, ref.sl[k]['shape'], ref.fm[l]), step=n, residual=res[l], scale=sc[l],
                      Q_old=old['Q_ik'][l], Q_new=new['Q_ik'][l], spec=spec, inputs=e)
