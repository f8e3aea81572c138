"""Heads at the two ends of every superlink are coupled to the superjunctions it connects."""
import numpy as np
from vlib import traj

PROP = 'C04'
N = {'quick': 400, 'thorough': 12000}
NEED = ['upstream', 'downstream', 'junction_below_link', 'loss_active']
RULE = ('random network + forcing per case, half of them with explicit entrance/exit loss coefficients and offsets; one '
        'evaluation is one superlink end over one step in a superlink with no depth at its floor or ceiling; behaviours '
        'are (end, shape, explicit loss, junction above link invert, flow direction, loss share)')
ASSUME = ['superlinks in which an interior depth was clamped at the documented floor/ceiling are not evaluated',
          'ends with less than 1 mm of water are not evaluated (the entrance loss divides by a squared area there)',
          'whether a junction stands above a link invert is taken at the start of the step']


def case(r, i, rng, tier):
    spec, kw, steps = traj.scenario(rng, i, 60, variable_losses=bool(i % 2),
                                    **(dict(hj_range=(-0.4, 0.5)) if i % 3 == 2 else {}))
    R = traj.Run(spec, kw)
    ref = R.ref
    r.sample = traj.describe(spec, kw)
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(steps, refine=0.15, rng=rng):
        for end, J, zi, I, name in (('uk', ref.Ju, ref.zu, ref.I1, 'upstream'), ('dk', ref.Jd, ref.zd, ref.IN, 'downstream')):
            res, sc = out[end]
            kok_ = kok
            kok = kok_ & ~out['thin_' + end]
            q = np.where(kok, np.abs(res) / sc, 0)
            r.count(name, kok.sum()); r.peak(name, q.max())
            above = old['H_j'][J] >= zi
            r.count('junction_below_link', (kok & ~above).sum())
            loss = np.abs(out[end + '_raw'] - np.where(cur['H_j'][J] >= zi, new['H_j'][J] - zi, 0))
            r.count('loss_active', (kok & (loss > 1e-4)).sum())
            k = int(rng.integers(0, ref.NK))
            if kok[k]:
                r.seen(name, ref.sl[k]['shape'], bool(i % 2), bool(above[k]), bool(new['Q_' + end][k] < 0), bool(loss[k] > 1e-4))
            if not (q <= 1e-6).all():
                k = int(np.argmax(np.where(np.isnan(q), np.inf, q)))
                r.violate(name, '%s depth of superlink %d does not match its superjunction head and entrance/exit loss'
                          % (name, k), step=n, residual=res[k], scale=sc[k], H=new['H_j'][J[k]], z_link=zi[k],
                          h_end=new['h_Ik'][I[k]], Q_end=new['Q_' + end][k], loss=loss[k], spec=spec, inputs=e)
            kok = kok_
