"""Continuity at every interior junction of every superlink."""
import numpy as np
from vlib import nets, traj

PROP = 'C02'
N = {'quick': 400, 'thorough': 12000}
NEED = ['continuity', 'telescoped', 'long', 'long_default']
RULE = ('random network + forcing (lateral inflow in half the cases, given or generated internals) per case; one '
        'evaluation is one interior junction over one step in a superlink with no depth at its floor or ceiling; '
        'behaviours are (position, shape, lateral, end length, given internals, flow direction, iteration)')
ASSUME = ['superlinks in which an interior depth was clamped at the documented floor/ceiling are not evaluated',
          'superlinks of more than 20 links are judged with the least-squares method; the loss of digits of the default recurrences beyond '
          'about 30 links is a listed finding (monitor long_default)']


def long_default(r):
    """one fixed network of 80-link superlinks, default method: listed in KNOWN_FINDINGS.md"""
    rng = np.random.default_rng(0)
    spec = nets.rand_net(rng, M=4, extra=0, internal_links=80, shapes=['rect_open', 'circular', 'trapezoidal'])
    R = traj.Run(spec, {})
    r.count('long_default')
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(nets.forcing(rng, spec, 20)):
        res, sc = out['cont']
        if not (np.abs(res) <= 1e-6 * sc)[kok[R.ref.k_I]].all() or not new['h_Ik'].max() < 20:
            r.violate('long_default', 'superlinks of 80 links solved by the default recurrences do not keep continuity', step=n,
                      worst=np.max(np.abs(res) / sc), deepest=new['h_Ik'].max(), spec=spec)


def case(r, i, rng, tier):
    if i == 50:
        return long_default(r)
    spec, kw, steps = traj.scenario(rng, i, 60)
    if i % 25 == 7:
        spec.pop('internals', None); kw.pop('mobile_elements', None)
        spec['kw']['internal_links'] = int(rng.integers(7, 61))
        if spec['kw']['internal_links'] > 20:
            kw['method'] = 'lsq'
        steps = nets.forcing(rng, spec, 30, lateral=rng.random() < 0.5)
        r.count('long')
    R = traj.Run(spec, kw)
    ref = R.ref
    r.sample = traj.describe(spec, kw)
    pos = np.full(len(ref.k_I), 'mid'); pos[ref.I1] = 'first'; pos[ref.IN] = 'last'
    for n, e, old, cur, new, out, jok, kok, quiet in R.steps(steps, refine=0.15, rng=rng):
        res, sc = out['cont']
        ok = kok[ref.k_I]
        q = np.where(ok, np.abs(res) / sc, 0)
        r.count('continuity', ok.sum()); r.peak('continuity', q.max())
        for I in rng.integers(0, len(q), 2):
            if ok[I]:
                k = ref.k_I[I]
                r.seen(pos[I], ref.sl[k]['shape'], 'Q_0Ik' in e, bool(ref.dxu[k]), bool(spec.get('internals')),
                       bool(new['Q_uk'][k] < 0), cur is not old)
        if not (q <= (1e-5 if 'method' in kw else 1e-6)).all():
            I = int(np.argmax(np.where(np.isnan(q), np.inf, q))); k = int(ref.k_I[I])
            r.violate('continuity', 'interior junction %d (%s) of superlink %d: inflow - outflow differs from its storage '
                      'change' % (I, pos[I], k), step=n, residual=res[I], scale=sc[I], h_old=old['h_Ik'][I],
                      h_new=new['h_Ik'][I], spec=spec, inputs=e)
        # what enters a superlink leaves it or stays in it
        tot = np.zeros(ref.NK); s = np.zeros(ref.NK)
        np.add.at(tot, ref.k_I, res); np.add.at(s, ref.k_I, sc)
        r.count('telescoped', kok.sum())
        bad = kok & ~(np.abs(tot) <= 1e-7 * s)
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            r.violate('telescoped', 'superlink %d gains or loses water' % k, step=n, residual=tot[k], scale=s[k],
                      spec=spec, inputs=e)
