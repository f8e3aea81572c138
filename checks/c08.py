"""Equivalent solution routes give the same trajectory."""
import copy
import numpy as np
from vlib import traj, nets, twin, oracle

PROP = 'C08'
N = {'quick': 320, 'thorough': 9000}
NEED = ['permuted_banded', 'banded_flag', 'method_f', 'method_lsq', 'method_nnls', 'given_internals', 'omitted_inputs']
RULE = ('random network + forcing per case, solved by the default route and by one alternative; every head, depth and '
        'flow of 15 steps is one evaluation; behaviours are (route, variable link counts, controls, boundary, loops)')
ASSUME = ['internal-solve alternatives are compared only until a depth reaches its floor or ceiling (they clamp differently)',
          'comparison of a trajectory stops when rounding-size perturbations of the inputs already move it by 1e-6']
KINDS = NEED


def permute(steps, p):
    t = copy.deepcopy(steps)
    for e in t:
        for f in ('Q_in', 'H_bc'):
            if e.get(f) is not None:
                e[f] = [e[f][j] for j in p]
    return t


def case(r, i, rng, tier):
    kind = KINDS[i % len(KINDS)]
    j = i // len(KINDS)
    force = {}
    if kind in ('permuted_banded', 'banded_flag'):
        force = dict(M=int(rng.integers(3, 15)))
    spec, kw, steps = traj.scenario(rng, j, 15, **force)
    if kind == 'given_internals':
        spec.pop('internals', None); kw.pop('mobile_elements', None)
        nets.canonical(spec)
    n = nets.nik(spec)
    for e in steps:
        if 'Q_0Ik' in e:
            e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, n)]
    r.sample = dict(route=kind, **traj.describe(spec, kw))
    if kind == 'omitted_inputs':
        for e in steps:
            for f in ('Q_in', 'Q_0Ik', 'u_o', 'u_w', 'u_p'):
                if f in e and rng.random() < 0.5:
                    e[f] = [0.0] * len(e[f])
    m = nets.build(spec, **kw)
    thin0 = bool((m.h_Ik < 1e-3).any())
    base = twin.drive(m, steps)
    pert = twin.drive(nets.build(twin.jitter(spec), **kw), twin.perturbed(steps))
    r.seen(kind, bool(spec.get('internals')), bool(spec['orifices']), bool(spec['weirs']), bool(spec['pumps']),
           any(s['bc'] for s in spec['sj']), len(spec['sl']) >= len(spec['sj']))
    d = dict(spec=spec, kw=kw, steps=steps)
    if kind == 'permuted_banded':
        m2 = nets.build(spec, auto_permute=True, **kw)
        p = np.asarray(m2.permutations)
        r.check(sorted(p.tolist()) == list(range(len(spec['sj']))), 'permutation', 'permutations is not a permutation', p=p)
        other = twin.drive(m2, permute(steps, p))

        def back(st):
            H = np.empty_like(st['H_j']); H[p] = st['H_j']
            return dict(st, H_j=H)
        twin.compare(r, kind, base, other, back, pert, 'bandwidth-reducing permutation with the banded solver', tol=1e-7, **d)
    elif kind == 'banded_flag':
        other = twin.drive(nets.build(spec, **kw), steps, banded=True)
        twin.compare(r, kind, base, other, twin.ident, pert, 'banded solve of the same matrix', tol=1e-7, **d)
    elif kind.startswith('method_'):
        ref = oracle.Ref(spec, min_depth=kw.get('min_depth', 1e-5))
        stop = 0 if thin0 else len(base)
        for s, st in enumerate(base[:stop]):
            jok, kok = ref.masks(None, st, None)
            if not (kok.all() and jok.all()) or (st['h_Ik'] < 1e-3).any():
                stop = s
                break
        other = twin.drive(nets.build(spec, method=kind[7:], **kw), steps[:stop])
        twin.compare(r, kind, base[:stop], other, twin.ident, pert, 'internal solution method %s' % kind[7:], tol=1e-6, atol=1e-6, **d)
    elif kind == 'given_internals':
        s2 = copy.deepcopy(spec)
        nets.add_internals(rng, s2, uniform=True, nk=spec['kw']['internal_links'], vary=False)
        other = twin.drive(nets.build(s2, **kw), steps)
        twin.compare(r, kind, base, other, twin.ident, pert, 'supplying the generated internal junctions as tables', **d)
    else:
        t2 = copy.deepcopy(steps)
        for e in t2:
            for f in ('Q_in', 'Q_0Ik', 'u_o', 'u_w', 'u_p'):
                if f in e and not any(e[f]):
                    e.pop(f)
        other = twin.drive(nets.build(spec, **kw), t2)
        twin.compare(r, kind, base, other, twin.ident, pert, 'omitting inputs that are zero', **d)
