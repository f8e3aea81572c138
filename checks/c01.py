"""Mass balance at superjunctions, over control-connected groups, and of the whole system."""
import numpy as np
from vlib import traj, nets, oracle

PROP = 'C01'
N = {'quick': 400, 'thorough': 12000}
NEED = ['junction_balance', 'group_balance', 'volume_budget']
RULE = ('random network + forcing per case; an evaluation is non-trivial when junction inflow, outflow or storage '
        'change is non-zero and no depth clamp acted on the junction or a neighbour; behaviours are (monitor, storage '
        'kind, end lengths, boundary neighbour, flow-direction, iteration)')
ASSUME = ['balances are not asserted for a junction when it or a neighbour was clamped at its floor or ceiling '
          '(clamping is documented to add or remove water)']
TOL = 1e-6


def case(r, i, rng, tier):
    if i % 5 == 4:
        return budget(r, i, rng)
    spec, kw, steps = traj.scenario(rng, i, 60)
    R = traj.Run(spec, kw)
    ref = R.ref
    ctl, groups = R.controlled(), R.components()
    tab = np.array([s['storage'] == 'tabular' for s in spec['sj']])
    r.sample = traj.describe(spec, kw)
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(steps, refine=0.15, rng=rng):
        res, sc = out['mass']
        ok = quiet & ~ref.bc & ~ctl
        q = np.where(ok, np.abs(res) / sc, 0)
        r.count('junction_balance', ok.sum()); r.peak('junction_balance', q.max())
        for j in np.flatnonzero(ok)[:3]:
            r.seen('junction', 'tab' if tab[j] else 'fun', bool(ref.dxu.any()), int(np.sign(new['H_j'][j] - old['H_j'][j])),
                   bool(np.any(new['Q_uk'][ref.Ju == j] < 0)), cur is not old)
        if not (q <= TOL).all():
            j = int(np.nanargmax(np.where(np.isnan(q), np.inf, q)))
            r.violate('junction_balance', 'inflow - outflow differs from the storage change of superjunction %d' % j,
                      step=n, residual=res[j], scale=sc[j], H_old=old['H_j'][j], H_new=new['H_j'][j],
                      Q_in=(e.get('Q_in') or [0])[j], spec=spec, inputs=e)
        for g in groups:
            if not quiet[g].all() or ref.bc[g].any():
                continue
            # scale includes the water exchanged inside the group, which cancels in the sum
            s = sc[g].sum() + np.abs(res[g]).sum()
            v = abs(res[g].sum()) / s
            r.count('group_balance'); r.peak('group_balance', v); r.seen('group', len(g), bool(np.any(np.abs(res[g]) > 1e-4)))
            if not v <= TOL:
                r.violate('group_balance', 'control structures create or lose water among superjunctions %s' % g,
                          step=n, implied_exchange=res[g], scale=s, spec=spec, inputs=e)


def budget(r, i, rng):
    """Prismatic open channels and constant-area junctions: water volume is exactly accountable."""
    ends = bool(i % 2)
    spec, kw, steps = traj.scenario(rng, 0, 60, shapes=['rect_open'], bc=0, ends=ends,
                                    controls=('owp' if rng.random() < .5 else ''), wet=None)
    for s in spec['sj']:
        s['a'] = 0.0
    for s in spec['sl']:
        s['g1'] = 1000.0                    # never bank-full: width is constant
    kw.pop('inertial_damping', None)
    R = traj.Run(spec, kw)
    ref = R.ref
    c = np.array([s['c'] for s in spec['sj']])
    B = ref.g[:, 1]

    def volume(s):
        h = s['h_Ik']
        V = (c * (s['H_j'] - ref.z)).sum()
        V += (B[ref.k_i] * ref.dx * (h[ref.Iu] + h[ref.Iu + 1]) / 2).sum() + (ref.As * h).sum()
        yu, yd = s['H_j'][ref.Ju] - ref.zu, s['H_j'][ref.Jd] - ref.zd
        V += (B * ref.dxu * (h[ref.I1] + yu) / 2).sum() + (B * ref.dxd * (h[ref.IN] + yd) / 2).sum()
        return V
    s0 = None
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(steps):
        co = out['coef']
        H = new['H_j']
        live = (jok.all() and kok.all()
                and (old['H_j'][ref.Ju] > ref.zu).all() and (old['H_j'][ref.Jd] > ref.zd).all()
                and (H[ref.Ju] > ref.zu).all() and (H[ref.Jd] > ref.zd).all()
                and (ref.th[0] == 1).all() and (ref.th[1] == 1).all() and (co['yu'] > 1e-3).all() and (co['yd'] > 1e-3).all())
        if not live:
            s0 = None
            continue
        if s0 is None:
            s0, w = old, 0.0
            thr = 0.0
        add = e['dt'] * (sum(e.get('Q_in') or [0]) + sum(e.get('Q_0Ik') or [0]))
        w += add
        thr += abs(add) + e['dt'] * float(np.abs(new['Q_ik']).sum())
        dV = volume(new) - volume(s0)
        err = abs(dV - w) / (thr + 1e-6 * volume(new) + 1e-3)
        r.count('volume_budget'); r.peak('volume_budget', err)
        r.seen('budget', ends, bool(spec['orifices'] or spec['weirs'] or spec['pumps']), len(spec['sl']) >= len(spec['sj']))
        if not err <= 1e-6:
            r.violate('volume_budget', 'stored water changed by %.9g but %.9g was supplied' % (dV, w), step=n,
                      relative=err, spec=spec, inputs=e)
