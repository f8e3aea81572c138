"""Movable internal junctions: where they go, what they carry, and the balances solved on the new spacing."""
import numpy as np
from vlib import nets, oracle, traj

PROP = 'C23'
N = {'quick': 700, 'thorough': 20000}
NEED = ['position', 'at_head', 'at_rest', 'returned', 'spacing', 'fixed_points', 'bed', 'depth', 'fixed_depth', 'flow', 'shifted_up', 'shifted_down',
        'untouched', 'masked', 'continuity', 'momentum', 'ends', 'off', 'refused', 'restored', 'on_fixed', 'two_links']
RULE = ('random networks with steep superlinks and one movable junction each, driven by inflows and downstream heads that sweep the bed; '
        'repositioning of all or of chosen superlinks between steps; one evaluation is one superlink repositioned once, or one balance after it; '
        'behaviours are (number of links, end lengths, orientation, from, to, direction, mask)')
ASSUME = ['downstream heads within 1e-9 m of the ends of the bed may be treated either way',
          'flow carried where two pieces are merged may be any mean of the two']


def observe(m):
    return dict(x=np.array(m.x_Ik, float), h=np.array(m.h_Ik, float), Q=np.array(m.Q_ik, float), H=np.array(m.H_j, float),
                z=np.array(m.z_inv_Ik if hasattr(m, 'z_inv_Ik') else m._z_inv_Ik, float))


class Shadow:
    """where each movable junction is, kept from observed heads alone"""

    def __init__(self, spec, ref):
        self.ref = ref
        n = int(spec['kw']['internal_links'])
        self.n = n
        self.L = np.array([float(s['dx']) for s in ref.sl])
        self.fixed = [np.linspace(0, L, n) for L in self.L]                  # relative to the first junction
        self.rest = self.L / 2 if (n + 1) % 2 else self.L / 2 + self.L / n / 2
        self.at = self.rest.copy()
        self.b0 = ref.zu + ref.slope * ref.dxu
        self.bN = self.b0 + ref.slope * self.L

    def x(self):
        return np.concatenate([np.sort(np.append(f, a)) for f, a in zip(self.fixed, self.at)])

    def pos(self, k):
        return int(np.searchsorted(self.fixed[k], self.at[k], side='right'))   # index of the movable junction


def case(r, i, rng, tier):
    if i % 12 == 11:
        return off(r, i, rng)
    o = dict(slope=float(rng.choice([0.004, 0.012, 0.03])), ends=bool(rng.random() < 0.5), hj_range=(-0.4, 1.2), flat=bool(rng.random() < 0.05))
    if rng.random() < 0.3:
        o['controls'] = 'owp'
    n = int(rng.integers(2, 9))
    if i % 6 == 0:
        n = 2
    spec = nets.rand_net(rng, internal_links=n, **o)
    if rng.random() < 0.5 and o['ends']:
        for s in spec['sl']:                     # long mixing zones in front of short channels
            s['dx_uk'] = float(rng.uniform(0.3, 1.2)) * s['dx']
    steps = nets.forcing(rng, spec, 30 if tier == 'quick' else 80, lateral=rng.random() < 0.4, qmax=float(rng.choice([0.2, 1.0])))
    m = nets.build(spec, mobile_elements=True)
    ref = oracle.Ref(spec)
    sh = Shadow(spec, ref)
    K, I1, IN = ref.NK, ref.I1, ref.IN
    near = {q[f] for t in ('orifices', 'weirs', 'pumps') for q in spec[t] for f in ('sj_0', 'sj_1')}   # control flows belong to their heads
    x0 = np.array(m.x_Ik, float)[I1]
    r.sample = dict(links=n, superlinks=K, ends=o['ends'], slope=o['slope'], steps=len(steps))
    r.check(np.abs(np.array(m.x_Ik, float) - (np.repeat(x0, n + 1) + sh.x())).max() <= 1e-9 * (1 + sh.L.max() + x0.max()), 'position',
            'initial positions are not evenly spaced points and one between them', got=m.x_Ik, expected=sh.x(), spec=spec)
    ref.set_x(sh.x())
    saved = None
    for s, e in enumerate(steps):
        d = dict(spec=spec, step=s, inputs=steps[:s + 1])
        old = oracle.snap(m); mv0 = observe(m)
        m.step(**nets.step_kwargs(e))
        new = oracle.snap(m); mv1 = observe(m)
        r.count('untouched')
        r.check(np.array_equal(mv0['x'], mv1['x']), 'untouched', 'positions changed in a time step', before=mv0['x'], after=mv1['x'], **d)
        # ---- the balances hold on the spacing in force
        out = ref.residuals(old, old, new, e, e['dt'])
        jok, kok = ref.masks(old, new, out)
        ref.advance(out)
        # two junctions (nearly) in one place make the step explode; nothing can be said about the run from there on
        if not all(np.isfinite(new[f]).all() and np.isfinite(old[f]).all() for f in ('H_j', 'h_Ik', 'Q_ik')) \
                or max(np.abs(new['H_j'] - ref.z).max(), new['h_Ik'].max(), old["h_Ik"].max()) > 15 or max(np.abs(new['Q_ik']).max(), np.abs(old["Q_ik"]).max()) > 50:
            r.count('runaway'); return
        for key, what in (('cont', 'continuity'), ('mom', 'momentum')):
            res, sc = out[key]
            ok = kok[ref.k_I if key == 'cont' else ref.k_i] & np.isfinite(res)
            if key == 'mom':
                ok &= ~out['thin_i']
            v = np.where(ok, np.abs(res) / sc, 0)
            r.count(what, ok.sum()); r.peak(what, v.max(initial=0))
            r.check((v <= 1e-5).all(), what, 'the %s balance does not hold on the current spacing' % what, worst=v.max(initial=0), where=int(np.argmax(v)),
                    x=mv1['x'], expected_x=sh.x(), **d)
        # ---- boundary heads placed where they matter
        if rng.random() < 0.35:
            H = np.array(m.H_j, float)
            for k in rng.permutation(K)[:2]:
                j = ref.Jd[k]
                if j in near:
                    continue
                lo, hi = sorted((sh.b0[k], sh.bN[k]))
                if hi - lo > 1e-3:
                    c = rng.random()
                    if c < 0.3:                  # a head whose level meets the bed at a fixed junction
                        H[j] = sh.b0[k] + ref.slope[k] * float(sh.fixed[k][int(rng.integers(0, n))]); r.count('on_fixed')
                    else:
                        H[j] = rng.uniform(lo - 0.3 * (hi - lo), hi + 0.3 * (hi - lo))
                    H[j] = max(H[j], ref.z[j] + 1e-3)
            m.H_j = H
        if rng.random() < 0.2:
            saved = (m.states, None)
        # ---- repositioning
        mask = None
        if rng.random() < 0.4:
            mask = rng.random(K) < 0.5
            r.count('masked')
        b = observe(m)
        m.reposition_junctions(**({} if mask is None else dict(reposition=mask.copy())))
        a = observe(m)
        r.check(np.array_equal(a['H'], b['H']), 'untouched', 'repositioning changed superjunction heads', **d)
        for k in range(K):
            sI, si = slice(I1[k], IN[k] + 1), slice(ref.i1[k], ref.iN[k] + 1)
            X, Y = b['x'][sI] - x0[k], a['x'][sI] - x0[k]
            dd = dict(superlink=k, before={f: b[f][sI] for f in 'xhz'}, after={f: a[f][sI] for f in 'xhz'}, flow=[b['Q'][si], a['Q'][si]],
                      downstream_head=b['H'][ref.Jd[k]], requested=True if mask is None else bool(mask[k]), **d)
            if mask is not None and not mask[k]:
                r.count('untouched')
                r.check(all(np.array_equal(a[f][sI], b[f][sI]) for f in 'xhz') and np.array_equal(a['Q'][si], b['Q'][si]), 'untouched',
                        'repositioning another superlink changed this one', **dd)
                continue
            Hd = b['H'][ref.Jd[k]]
            tol = 1e-7 * (1 + sh.L[k] + x0[k])
            was, p0 = sh.at[k], sh.pos(k)
            inside = sh.bN[k] < Hd < sh.b0[k]
            opts = [(Hd - sh.b0[k]) / ref.slope[k]] if inside else [sh.rest[k]]
            if min(abs(Hd - sh.bN[k]), abs(Hd - sh.b0[k])) < 1e-9:
                opts += [sh.rest[k], min(max((Hd - sh.b0[k]) / ref.slope[k], 0), sh.L[k]) if ref.slope[k] else sh.rest[k]]
            r.count('position'); r.count('at_head' if inside else 'at_rest'); r.count('returned', (not inside) and abs(was - sh.rest[k]) > tol)
            r.count('two_links', n == 2)
            # which entry moved: what remains are the fixed points
            hit = None
            for p in opts:
                want = np.sort(np.append(sh.fixed[k], p))
                if np.abs(Y - want).max() <= tol + 1e-9 * abs(1 / ref.slope[k] if ref.slope[k] else 0):
                    hit = p
            if hit is None:
                near = min(np.abs(sh.fixed[k] - opts[0]).min(), 1)
                r.violate('position', 'junctions are not the fixed points and the movable one at its place', expected=np.sort(np.append(sh.fixed[k], opts[0])),
                          got=Y, nearest_fixed=near, rest=sh.rest[k], **dd)
            r.count('fixed_points', n); r.count('spacing', n); r.count('ends')
            gap = np.diff(Y)
            r.check(abs(Y[0]) <= tol and abs(Y[-1] - sh.L[k]) <= tol, 'ends', 'an end junction moved', **dd)
            close = np.abs(sh.fixed[k] - hit).min() < 1e-6
            r.check((gap > 0).all() or (close and (gap >= 0).all()), 'spacing', 'spacing is not positive', gap=gap, **dd)
            r.check(abs(gap.sum() - sh.L[k]) <= tol, 'spacing', 'spacing does not add up to the superlink length', gap=gap, **dd)
            r.count('bed', n + 1)
            zt = sh.b0[k] + ref.slope[k] * Y
            r.check(np.abs(a['z'][sI] - zt).max() <= 1e-7 * (1 + np.abs(zt).max()), 'bed', 'a junction is off the bed line', expected=zt, **dd)
            sh.at[k] = hit
            p1 = sh.pos(k)
            # ---- depths: fixed points keep theirs, the moved one takes the profile's
            if not close:
                r.count('fixed_depth', n); r.count('depth')
                kept_b, kept_a = np.delete(b['h'][sI], p0), np.delete(a['h'][sI], p1)
                if np.abs(sh.fixed[k] - was).min() >= 1e-6:
                    r.check(np.array_equal(kept_a, kept_b), 'fixed_depth', 'a fixed junction lost its depth', kept=[kept_b, kept_a], **dd)
                    want = np.interp(hit, X, b['h'][sI])
                    r.check(abs(a['h'][sI][p1] - want) <= 1e-6 * (1 + abs(want)) * (1 + 1 / max(1e-9, np.diff(X).min()) * tol), 'depth', 'the moved junction does not carry the depth of the water there',
                            got=a['h'][sI][p1], expected=want, **dd)
                    # ---- flows stay with the pieces of channel
                    Qb, Qa = b['Q'][si], a['Q'][si]
                    r.count('flow', n)
                    if p0 == p1:
                        r.check(np.array_equal(Qa, Qb), 'flow', 'flows changed although the junction stayed between the same neighbours', **dd)
                    else:
                        r.count('shifted_up', p1 < p0); r.count('shifted_down', p1 > p0)
                        merged = (min(Qb[p0 - 1], Qb[p0]), max(Qb[p0 - 1], Qb[p0]))
                        one = list(np.delete(Qb, p0 - 1)); one[p0 - 1] = None      # the merged piece
                        two = list(one); two.insert(p1 - 1, one[p1 - 1])            # the divided piece
                        for q in range(n):
                            ok = (merged[0] - 1e-12 <= Qa[q] <= merged[1] + 1e-12) if two[q] is None else abs(Qa[q] - two[q]) <= 1e-12 * (1 + abs(two[q]))
                            if not ok:
                                r.violate('flow', 'a piece of channel did not keep its flow when the junction passed (link %d of %d)' % (q, n),
                                          expected=[v if v is not None else list(merged) for v in two], got=Qa, moved=[p0, p1], **dd)
            r.seen(n, o['ends'], bool(inside), int(np.sign(p1 - p0)), mask is not None, close)
        ref.set_x(sh.x())
        # ---- going back to the state before restores positions with everything else
        if rng.random() < 0.15:
            keep = observe(m); at = sh.at.copy(); th = ref.th
            m.step(**nets.step_kwargs(e)); m.reposition_junctions(); m.load_state()
            back = observe(m)
            r.count('restored')
            r.check(all(np.array_equal(keep[f], back[f]) for f in keep), 'restored', 'loading the saved state does not restore movable junctions',
                    before=keep, after=back, **d)


def off(r, i, rng):
    spec = nets.rand_net(rng, internal_links=int(rng.integers(2, 6)))
    m = nets.build(spec, mobile_elements=False)
    x = np.array(m.x_Ik, float)
    steps = nets.forcing(rng, spec, 10)
    for e in steps:
        m.step(**nets.step_kwargs(e))
        r.count('off')
        r.check(np.array_equal(x, m.x_Ik), 'off', 'positions change although movable junctions are off', before=x, after=m.x_Ik, spec=spec)
    try:
        m.reposition_junctions()
    except ValueError:
        r.count('refused')
        r.check(np.array_equal(x, m.x_Ik), 'off', 'a refused repositioning moved junctions', before=x, after=m.x_Ik, spec=spec)
    else:
        r.violate('refused', 'repositioning is accepted although movable junctions are off', spec=spec)
