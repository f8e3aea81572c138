"""Symmetries: vertical datum, labels and order, disjoint union, direction of declaration."""
import copy
import numpy as np
from vlib import traj, nets, twin, oracle

PROP = 'C07'
N = {'quick': 320, 'thorough': 9000}
NEED = ['datum', 'relabel', 'union', 'reversed']
RULE = ('random network + forcing per case, run twice under one symmetry; every head, depth and flow of 15 steps is one '
        'evaluation; behaviours are (symmetry, controls, tabular storage, boundary, given internals, flow reversal)')
ASSUME = ['comparison of a trajectory stops when rounding-size perturbations of the inputs already move it by 1e-6']
KINDS = ['datum', 'relabel', 'union', 'reversed']


def shift(spec, steps, c):
    s = copy.deepcopy(spec); t = copy.deepcopy(steps)
    for r in s['sj']:
        r['z_inv'] += c
    for e in t:
        if e.get('H_bc') is not None:
            e['H_bc'] = [v + c for v in e['H_bc']]
    return s, t, lambda st: dict(st, H_j=st['H_j'] - c)


def relabel(spec, steps, rng):
    s = copy.deepcopy(spec); t = copy.deepcopy(steps)
    M, K = len(s['sj']), len(s['sl'])
    p = rng.permutation(M)            # new position -> old junction
    inv = np.argsort(p)
    s['sj'] = [s['sj'][j] for j in p]
    q = rng.permutation(K)
    s['sl'] = [s['sl'][k] for k in q]
    if s.get('internals'):
        s['internals'] = [s['internals'][k] for k in q]
    for r in s['sl']:
        r['sj_0'], r['sj_1'] = int(inv[r['sj_0']]), int(inv[r['sj_1']])
    cp = {}
    for c, u in (('orifices', 'o'), ('weirs', 'w'), ('pumps', 'p')):
        n = len(s[c]); o = rng.permutation(n)
        s[c] = [s[c][a] for a in o]
        for r in s[c]:
            r['sj_0'], r['sj_1'] = int(inv[r['sj_0']]), int(inv[r['sj_1']])
        cp[u] = o
    nk = [len(d['x']) - 1 for d in spec['internals']] if spec.get('internals') else [spec['kw']['internal_links']] * K
    I0 = np.cumsum([0] + [n + 1 for n in nk]); i0 = np.cumsum([0] + nk)
    fI = np.concatenate([np.arange(I0[k], I0[k + 1]) for k in q])
    fi = np.concatenate([np.arange(i0[k], i0[k + 1]) for k in q])
    for e in t:
        for f in ('Q_in', 'H_bc'):
            if e.get(f) is not None:
                e[f] = [e[f][j] for j in p]
        if e.get('Q_0Ik') is not None:
            e['Q_0Ik'] = [e['Q_0Ik'][I] for I in fI]
        for u in 'owp':
            if e.get('u_' + u) is not None:
                e['u_' + u] = [e['u_' + u][a] for a in cp[u]]

    def back(st):
        o = dict(st)
        for f, ix in (('H_j', p), ('h_Ik', fI), ('Q_ik', fi), ('Q_uk', q), ('Q_dk', q), ('Q_o', cp['o']), ('Q_w', cp['w']), ('Q_p', cp['p'])):
            if f in st and len(st[f]) == len(ix):
                v = np.empty_like(st[f]); v[ix] = st[f]; o[f] = v
        return o
    return s, t, back


def union(a, sa, b, sb):
    s = copy.deepcopy(a)
    M = len(a['sj'])
    b = copy.deepcopy(b)
    for r in b['sl']:
        r['sj_0'] += M; r['sj_1'] += M
        if r['transect']:
            r['transect'] = 'b' + r['transect']
    for r in b['sj']:
        if r.get('table'):
            r['table'] = 'b' + r['table']
    for c in ('orifices', 'weirs', 'pumps'):
        for r in b[c]:
            r['sj_0'] += M; r['sj_1'] += M
        s[c] = s[c] + b[c]
    s['sj'] += b['sj']; s['sl'] += b['sl']
    for col, dflt in (('dx_uk', 0.0), ('dx_dk', 0.0), ('C_uk', 1 / 0.67 ** 2), ('C_dk', 1 / 0.67 ** 2)):
        if any(col in r for r in s['sl']):
            for r in s['sl']:
                r.setdefault(col, dflt)
    s['transects'].update({'b' + k: v for k, v in b['transects'].items()})
    s['storages'].update({'b' + k: v for k, v in b['storages'].items()})
    t = []
    for x, y in zip(sa, sb):
        e = dict(dt=x['dt'])
        for f in ('Q_in', 'H_bc', 'Q_0Ik', 'u_o', 'u_w', 'u_p'):
            if x.get(f) is not None or y.get(f) is not None:
                h0 = {'H_bc': lambda q: [r['z_inv'] for r in q['sj']], 'Q_in': lambda q: [0.0] * len(q['sj']),
                      'Q_0Ik': lambda q: [0.0] * nets.nik(q)}.get(f, lambda q: [])
                e[f] = (x.get(f) if x.get(f) is not None else h0(a)) + (y.get(f) if y.get(f) is not None else h0(b))
        t.append(e)
    return s, t


def reverse(spec, rng):
    s = copy.deepcopy(spec)
    z = [r['z_inv'] for r in s['sj']]
    n = 0
    for r in s['sl']:
        if z[r['sj_0']] + r['in_offset'] > z[r['sj_1']] + r['out_offset'] + 1e-9 and rng.random() < 0.7:
            r['sj_0'], r['sj_1'] = r['sj_1'], r['sj_0']
            r['in_offset'], r['out_offset'] = r['out_offset'], r['in_offset']
            for p, q in (('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
                if p in r:
                    r[p], r[q] = r[q], r[p]
            n += 1
    return s, n


def case(r, i, rng, tier):
    kind = KINDS[i % 4]
    force = {}
    if kind in ('union', 'reversed'):
        force = dict(internals=False)
    if kind == 'reversed':
        force.update(ends=bool(i % 8 < 4), variable_losses=bool(i % 3))
    force.pop('internals', None)
    spec, kw, steps = traj.scenario(rng, i // 4, 15, **force)
    if kind in ('union', 'reversed') and spec.get('internals'):
        spec.pop('internals'); kw.pop('mobile_elements', None)
        n = nets.nik(spec)
        for e in steps:
            if 'Q_0Ik' in e:
                e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, n)]
    if kind == 'reversed':
        nets.canonical(spec)
    r.sample = dict(symmetry=kind, **traj.describe(spec, kw))
    base = twin.drive(nets.build(spec, **kw), steps)
    pert = twin.drive(nets.build(twin.jitter(spec), **kw), twin.perturbed(steps))
    tag = (bool(spec['orifices']), bool(spec['weirs']), bool(spec['pumps']), bool(spec['storages']),
           any(s['bc'] for s in spec['sj']), bool(spec.get('internals')), bool((base[-1]['Q_uk'] < 0).any()))
    if kind == 'datum':
        s2, t2, back = shift(spec, steps, float(rng.choice([-100.0, 37.25, 12.0])))
        other = twin.drive(nets.build(s2, **kw), t2)
        n = twin.compare(r, 'datum', base, other, back, pert, 'shifting every elevation', tol=1e-6, atol=1e-6, factor=1e5, spec=spec, shifted=s2, steps=steps)
    elif kind == 'relabel':
        s2, t2, back = relabel(spec, steps, rng)
        other = twin.drive(nets.build(s2, **kw), t2)
        n = twin.compare(r, 'relabel', base, other, back, pert, 'renumbering junctions, links and controls', spec=spec, relabelled=s2, steps=steps)
    elif kind == 'union':
        b, kwb, sb = traj.scenario(rng, int(rng.integers(0, 100)), 15)
        if b.get('internals'):
            b.pop('internals')
        if (b['sj'][0].get('table') is None) != (spec['sj'][0].get('table') is None):
            pass
        b['kw'] = dict(spec['kw'])
        nb = nets.nik(b)
        for e, x in zip(sb, steps):
            e['dt'] = x['dt']
            if 'Q_0Ik' in e:
                e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, nb)]
        u, t = union(spec, steps, b, sb)
        other = twin.drive(nets.build(u, **kw), t)
        baseb = twin.drive(nets.build(b, **kw), sb)
        pertb = twin.drive(nets.build(twin.jitter(b), **kw), twin.perturbed(sb))

        def part(first):
            def back(st):
                o = {}
                for f in base[0] if first else baseb[0]:
                    na = len(base[0][f]) if f in base[0] else 0
                    o[f] = st[f][:na] if first else st[f][na:]
                return o
            return back
        n = twin.compare(r, 'union', base, other, part(True), pert, 'first of two disjoint networks', spec=u, steps=t)
        n = twin.compare(r, 'union', baseb, other, part(False), pertb, 'second of two disjoint networks', spec=u, steps=t)
    else:
        s2, m = reverse(spec, rng)
        if not m:
            return
        other = twin.drive(nets.build(s2, **kw), steps)
        n = twin.compare(r, 'reversed', base, other, twin.ident, pert, 'declaring superlinks in the opposite direction', spec=spec, reversed=s2, steps=steps)
    r.seen(kind, *tag)
