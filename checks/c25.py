"""Internal junctions and links of a built model: number, place, attribution, and the use made of them in every step."""
import copy
import numpy as np
from vlib import nets, oracle, twin

PROP = 'C25'
N = {'quick': 1200, 'thorough': 30000}
NEED = ['count', 'spacing', 'bed', 'invert', 'depth', 'flow', 'end_inverts', 'adverse', 'given', 'movable', 'sections', 'continuity', 'momentum', 'upstream_end',
        'downstream_end', 'superjunction', 'unequal', 'single_link', 'split', 'names', 'permuted', 'refused', 'inputs', 'long', 'relabel']
RULE = ('random networks with per-superlink (and, where tables are supplied, per-link) sections, roughness, friction laws, in-link controls, lateral areas and '
        'initial values; one evaluation is one element of the built model or one balance of one element over one step; '
        'behaviours are (origin of the internals, number of links, adverse, end lengths, section, position in the superlink)')
ASSUME = ['internal tables are supplied in superlink order for superlinks declared downhill',
          'superlinks of more than 20 links are solved with the least-squares method (the recurrences lose their digits beyond about 30 links, see C02)',
          'superlinks declared dry are judged at construction only',
          'superlinks in which a depth was clamped at the documented floor or ceiling are not evaluated in that step']


def vary_links(rng, spec):
    """every internal link its own section, friction law, control and initial flow"""
    for rr, d in zip(spec['sl'], spec['internals']):
        d['sections'] = []
        for _ in range(len(d['x']) - 1):
            shape, g = nets.rand_shape(rng)
            e = dict(shape=shape, transect='', Q_0=float(rng.uniform(-0.2, 0.2)) if rr['h_0'] > 0.05 else 0.0, **{'g%d' % (q + 1): g[q] for q in range(7)})
            if shape == 'irregular':
                e['transect'] = 'X%d' % len(spec['transects'])
                spec['transects'][e['transect']] = nets.rand_transect(rng)
            e['friction_method'] = str(rng.choice(['cm', 'hw', 'dw']))
            e['roughness'] = float({'cm': rng.uniform(0.010, 0.035), 'hw': rng.uniform(80, 150), 'dw': 10 ** rng.uniform(-4, -2.3)}[e['friction_method']])
            if rng.random() < 0.3:
                e.update(ctrl=True, A_c=float(rng.uniform(0.5, 2)), C=float(rng.uniform(0.3, 1)))
            d['sections'].append(e)
        d['roughness'] = [e['roughness'] for e in d['sections']]


def case(r, i, rng, tier):
    kind = ('generated', 'generated', 'movable', 'given', 'given', 'links', 'split', 'names', 'refused', 'relabel')[i % 10]
    if kind == 'split':
        return split(r, i, rng)
    if kind == 'refused':
        return refused(r, i, rng)
    if kind == 'relabel':
        return relabel(r, i, rng)
    o = dict(ends=bool(rng.random() < 0.6), friction=('cm', 'hw', 'dw'), variable_losses=bool(rng.random() < 0.5), ctrl=bool(rng.random() < 0.4),
             max_depth=bool(rng.random() < 0.1), slope=float(rng.choice([0.004, 0.004, 0.0, 0.015])))
    if kind == 'movable' and o['slope'] == 0:
        o['slope'] = 0.004
    big = i % 40 == 1
    n = int(rng.integers(12, 81)) if big else int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8])) if kind != 'movable' else int(rng.integers(2, 9))
    spec = nets.rand_net(rng, internal_links=n, **o)
    for s in spec['sl']:
        s['Q_0'] = float(rng.uniform(-0.2, 0.2)); s['A_s'] = float(rng.choice([0.0, 0.5, 2.0]))
        if rng.random() < 0.1:
            s['h_0'] = float(rng.choice([0.0, 1e-7, -0.1])); s['Q_0'] = 0.0      # a dry channel does not flow
        if rng.random() < 0.3:
            s['dx'] = float(np.exp(rng.uniform(np.log(5), np.log(2000))))
    adverse = [spec['sj'][s['sj_0']]['z_inv'] + s['in_offset'] < spec['sj'][s['sj_1']]['z_inv'] + s['out_offset'] for s in spec['sl']]
    kw = dict(method='lsq') if n > 20 else {}
    if kind in ('given', 'links'):
        # the number of links differs between superlinks, single-link superlinks among them
        nets.add_internals(rng, spec)
        for d, s in zip(spec['internals'], spec['sl']):
            if rng.random() < 0.2:
                d['x'] = [0.0, s['dx']]
                for f, m in (('A_s', 2), ('roughness', 1), ('h_0', 2)):
                    d[f] = d[f][:m]
        if kind == 'links':
            vary_links(rng, spec); r.count('sections')
        kw['mobile_elements'] = False
        adverse = [False] * len(spec['sl'])
        r.count('given')
    elif kind == 'movable':
        kw['mobile_elements'] = True
        r.count('movable')
    if kind == 'names':
        kw['auto_permute'] = bool(rng.random() < 0.5)
        names = ['%s%d' % (rng.choice(['b', 'A', 'z']), q) for q in rng.permutation(len(spec['sj']))]
        if kw['auto_permute']:
            kw['banded'] = True
    min_depth = float(rng.choice([1e-5, 1e-3]))
    r.sample = dict(kind=kind, links=n if kind not in ('given', 'links') else [len(d['x']) - 1 for d in spec['internals']], ends=o['ends'], superlinks=len(spec['sl']))
    t = nets.tables(spec)
    if kind == 'names':
        t['superjunctions']['name'] = names
    keep = copy.deepcopy(t)
    from pipedream_solver.nsuperlink import nSuperLink
    build = {**spec['kw'], **kw}
    build.pop('banded', None)
    m = nSuperLink(t['superlinks'], t['superjunctions'], min_depth=min_depth, **{k: v for k, v in t.items() if k not in ('superlinks', 'superjunctions')}, **build)
    r.count('inputs')
    for k, v in keep.items():
        if hasattr(v, 'equals'):
            r.check(v.equals(t[k]), 'inputs', 'building a model changed its %s table' % k, spec=spec)
    ref = oracle.Ref(spec, min_depth=min_depth)
    d = dict(spec=spec, build=build)
    # order of the superjunctions in the model
    perm = np.asarray(m.permutations) if kind == 'names' else np.arange(ref.M)
    r.check(sorted(perm.tolist()) == list(range(ref.M)), 'permuted', 'the junction order of the model is not a permutation', got=perm, **d)
    inv = np.argsort(perm)
    if kind == 'names':
        r.count('names')
        r.check([str(v) for v in m.superjunction_names] == [names[p] for p in perm], 'names', 'junction names do not follow their junctions', got=m.superjunction_names,
                expected=[names[p] for p in perm], **d)
        r.check([str(v) for v in m.superlink_names] == ['K%d' % k for k in range(ref.NK)], 'names', 'superlink names do not follow their superlinks', got=m.superlink_names, **d)
        if kw.get('auto_permute'):
            r.count('permuted')
            r.check(np.array_equal(np.asarray(m._J_uk), inv[ref.Ju]) and np.array_equal(np.asarray(m._J_dk), inv[ref.Jd]), 'permuted',
                    'superlinks are attached to other junctions after permuting', got=[m._J_uk, m._J_dk], expected=[inv[ref.Ju], inv[ref.Jd]], **d)
    # ---- number of elements
    r.count('count', ref.NK)
    r.check(np.array_equal(np.asarray(m.nk), ref.nk + (0 if kind != 'movable' else 0)), 'count', 'wrong number of internal links', got=m.nk, expected=ref.nk, **d)
    r.check(len(m.h_Ik) == len(ref.k_I) and len(m.Q_ik) == len(ref.k_i), 'count', 'wrong number of internal elements', got=[len(m.h_Ik), len(m.Q_ik)], **d)
    r.count('unequal', len(set(ref.nk.tolist())) > 1); r.count('single_link', bool((ref.nk == 1).any())); r.count('long', big)
    r.count('adverse', sum(adverse))
    # ---- place
    x = np.array(m.x_Ik, float)
    if kind == 'movable':
        xs = []
        for k in range(ref.NK):
            L = float(ref.sl[k]['dx'])
            rest = L / 2 if (n + 1) % 2 else L / 2 + L / n / 2
            xs.append(np.sort(np.append(np.linspace(0, L, n), rest)))
        ref.set_x(np.concatenate(xs))
    L = np.array([float(s['dx']) for s in ref.sl])
    want = ref.x_I + ref.dxu[ref.k_I]
    tol = 1e-9 * (1 + L.max() + ref.dxu.max())
    r.count('spacing', len(ref.dx))
    dx = np.array(m._dx_ik, float)
    r.check((dx > 0).all(), 'spacing', 'a link has no positive length', dx=dx, **d)
    r.check(np.abs(dx - ref.dx).max() <= tol, 'spacing', 'link lengths do not divide the superlink as declared', got=dx, expected=ref.dx, **d)
    r.check(np.abs(np.add.reduceat(dx, ref.i1) - L).max() <= tol, 'spacing', 'link lengths do not add up to the superlink length', **d)
    r.check(np.abs(x - want).max() <= tol, 'spacing', 'junctions are not placed along their superlink', got=x, expected=want, **d)
    # ---- bed
    r.count('bed', len(ref.z_I)); r.count('end_inverts', 2 * ref.NK); r.count('invert', ref.M)
    r.check(np.abs(np.asarray(m._z_inv_Ik) - ref.z_I).max() <= 1e-9 * (1 + np.abs(ref.z_I).max()), 'bed', 'an internal junction is off the straight bed of its superlink',
            got=m._z_inv_Ik, expected=ref.z_I, **d)
    r.check(np.array_equal(np.asarray(m.z_inv_j), ref.z[perm]), 'invert', 'junction inverts differ from the declared ones', got=m.z_inv_j, **d)
    r.check(np.abs(np.asarray(m.z_inv_uk) - ref.zu).max() <= 1e-12 * (1 + np.abs(ref.zu).max()), 'end_inverts', 'upstream end is not at its junction plus offset',
            got=m.z_inv_uk, expected=ref.zu, **d)
    r.check(np.abs(np.asarray(m.z_inv_dk) - ref.zd).max() <= 1e-12 * (1 + np.abs(ref.zd).max()), 'end_inverts', 'downstream end is not at its junction plus offset',
            got=m.z_inv_dk, expected=ref.zd, **d)
    # ---- initial values, each on its own element
    h0 = np.concatenate([np.asarray((spec.get('internals') or [{}] * ref.NK)[k].get('h_0', np.full(ref.nk[k] + 1, s['h_0'])), float) for k, s in enumerate(ref.sl)])
    Q0 = np.array([float(s['Q_0']) for s in ref.li])
    r.count('depth', len(h0)); r.count('flow', len(Q0))
    st = oracle.snap(m)
    r.check(np.abs(st['h_Ik'] - np.maximum(h0, min_depth)).max() <= 1e-9 * (1 + np.abs(h0).max()), 'depth', 'initial depths are not those declared for the superlink', got=st['h_Ik'],
            expected=np.maximum(h0, min_depth), **d)
    r.check(np.array_equal(st['Q_ik'], Q0), 'flow', 'initial flows are not those declared for the superlink', got=st['Q_ik'], expected=Q0, **d)
    r.check(np.array_equal(st['Q_uk'], Q0[ref.i1]) and np.array_equal(st['Q_dk'], Q0[ref.iN]), 'flow', 'end flows do not start as those of the end links',
            got=[st['Q_uk'], st['Q_dk']], expected=[Q0[ref.i1], Q0[ref.iN]], **d)
    H0 = np.maximum(ref.z + np.array([s['h_0'] for s in spec['sj']]), ref.z + min_depth)
    r.check(np.abs(st['H_j'] - H0[perm]).max() <= 1e-12 * (1 + np.abs(H0).max()), 'depth', 'initial heads are not those declared for the junctions', got=st['H_j'], expected=H0[perm], **d)
    # ---- every element is computed with its own attributes, step after step
    pos = np.full(len(ref.k_i), 'mid'); pos[ref.i1] = 'first'; pos[ref.iN] = 'last'
    back = lambda s: {k: (v[inv] if k == 'H_j' else v) for k, v in s.items()}
    steps = nets.forcing(rng, spec, 6 if tier == 'quick' else 12, lateral=bool(rng.random() < 0.5), qmax=float(rng.choice([0.3, 1.5])))
    if (h0 < 0.05).any():
        r.count('dry'); return             # wetting fronts: judged at construction only
    for s, e in enumerate(steps):
        old = back(oracle.snap(m))
        q = nets.step_kwargs(e)
        for f in ('H_bc', 'Q_in'):
            if q.get(f) is not None:
                q[f] = np.asarray(q[f])[perm]
        m.step(**q)
        new = back(oracle.snap(m))
        out = ref.residuals(old, old, new, e, e['dt'])
        jok, kok = ref.masks(old, new, out)
        ref.advance(out)
        if not all(np.isfinite(v).all() for v in new.values()) or np.abs(new['H_j']).max() > 1e4:
            r.count('runaway'); return
        uk, dk = out['thin_uk'], out['thin_dk']
        sets = (('cont', 'continuity', kok[ref.k_I], ref.k_I, 1e-6), ('mom', 'momentum', kok[ref.k_i] & ~out['thin_i'], ref.k_i, 1e-6),
                ('uk', 'upstream_end', kok & ~uk, np.arange(ref.NK), 1e-6), ('dk', 'downstream_end', kok & ~dk, np.arange(ref.NK), 1e-6),
                ('mass', 'superjunction', jok & ~ref.bc & surrounded(ref, jok, kok), None, 1e-5))
        for key, what, ok, ks, tl in sets:
            res, sc = out[key]
            v = np.where(ok, np.abs(res) / sc, 0)
            r.count(what, int(ok.sum())); r.peak(what, v.max(initial=0))
            if not (v <= tl * ((100 if n > 20 else 10))).all():
                w = int(np.argmax(np.where(np.isnan(v), np.inf, v)))
                k = int(ks[w]) if ks is not None else None
                r.violate(what, 'element %d%s is not computed with its own attributes' % (w, '' if k is None else ' of superlink %d' % k), residual=res[w], scale=sc[w],
                          declared=None if k is None else ref.sl[k], step=s, inputs=e, **d)
        l = int(rng.integers(len(ref.k_i)))
        if kok[ref.k_i[l]]:
            r.seen(kind, int(min(ref.nk[ref.k_i[l]], 9)), bool(adverse[ref.k_i[l]]), o['ends'], ref.li[l]['shape'], pos[l])


def surrounded(ref, jok, kok):
    ok = np.ones(ref.M, bool)
    np.logical_and.at(ok, ref.Ju, kok); np.logical_and.at(ok, ref.Jd, kok)
    return ok


def split(r, i, rng):
    """generated internals and the same internals supplied as tables are the same model"""
    n = int(rng.integers(1, 8))
    spec = nets.canonical(nets.rand_net(rng, internal_links=n, ends=bool(rng.random() < 0.5), friction=('cm', 'hw', 'dw'), variable_losses=bool(rng.random() < 0.5),
                                        controls=str(rng.choice(['', 'owp']))))
    b = copy.deepcopy(spec)
    b['internals'] = [dict(x=[float(v) for v in np.linspace(0, s['dx'], n + 1)]) for s in b['sl']]
    steps = nets.forcing(rng, spec, 25, lateral=True)
    A = twin.drive(nets.build(spec, mobile_elements=False), steps)
    B = twin.drive(nets.build(b, mobile_elements=False), steps)
    J = twin.drive(nets.build(twin.jitter(spec), mobile_elements=False), twin.perturbed(steps))
    r.count('split', len(steps))
    twin.compare(r, 'split', A, B, twin.ident, J, 'generated internals and the same internals supplied as tables differ', spec=spec, steps=steps)
    r.seen('split', n)


def relabel(r, i, rng):
    """a superlink behaves the same wherever it stands in the table, whatever the others look like"""
    spec = nets.canonical(nets.rand_net(rng, ends=bool(rng.random() < 0.5), friction=('cm', 'hw', 'dw'), ctrl=True, extra=2))
    nets.add_internals(rng, spec)
    if rng.random() < 0.7:
        vary_links(rng, spec)
    K = len(spec['sl'])
    p = rng.permutation(K)
    b = copy.deepcopy(spec)
    b['sl'] = [b['sl'][k] for k in p]
    b['internals'] = [b['internals'][k] for k in p]
    steps = nets.forcing(rng, spec, 25)
    A = twin.drive(nets.build(spec, mobile_elements=False), steps)
    B = twin.drive(nets.build(b, mobile_elements=False), steps)
    J = twin.drive(nets.build(twin.jitter(spec), mobile_elements=False), twin.perturbed(steps))
    ra, rb = oracle.Ref(spec), oracle.Ref(b)
    mapping = {'Q_uk': np.argsort(p), 'Q_dk': np.argsort(p)}
    I = np.concatenate([np.arange(rb.I1[q], rb.IN[q] + 1) for q in np.argsort(p)])
    ii = np.concatenate([np.arange(rb.i1[q], rb.iN[q] + 1) for q in np.argsort(p)])
    mapping.update(h_Ik=I, Q_ik=ii)
    B = [{f: (v[mapping[f]] if f in mapping else v) for f, v in s.items()} if isinstance(s, dict) else s for s in B]
    r.count('relabel', len(steps))
    twin.compare(r, 'relabel', A, B, twin.ident, J, 'a superlink behaves differently at another place of the table', spec=spec, order=p, steps=steps)
    r.seen('relabel', K)


def refused(r, i, rng):
    spec = nets.rand_net(rng)
    nets.add_internals(rng, spec)
    r.count('refused')
    try:
        nets.build(spec, mobile_elements=True)
    except ValueError:
        pass
    else:
        r.violate('refused', 'movable junctions are accepted together with supplied tables', spec=spec)
    spec = nets.rand_net(rng, internal_links=1)
    try:
        nets.build(spec, mobile_elements=True)
    except ValueError:
        pass
    else:
        r.violate('refused', 'movable junctions are accepted in a single-link superlink', spec=spec)
