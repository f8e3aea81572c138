"""Histories of stepping, saving, excursions, loading and replaying; everything compared exactly."""
import copy
import numpy as np
from vlib import traj, nets, twin

PROP = 'C14'
N = {'quick': 260, 'thorough': 8000}
NEED = ['replayed', 'replayed_fresh', 'identical_run', 'snapshot_kept', 'restored', 'undo', 'clock', 'crossed_invert', 'mobile_moved']
RULE = ('random network + forcing per case; a history of steps, a save, further steps, an excursion with other inputs '
        '(other time steps, settings, spin-up), a load into the same or a freshly built model, and a repetition; one '
        'evaluation is one state field at one step; behaviours are (history shape, option, element kinds)')
ASSUME = ['the internal time-independent tables of the model are not part of a state']
FIELDS = ['t', 'H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik', 'Q_o', 'Q_w', 'Q_p', 'A_ik', 'A_uk', 'A_dk', 'A_sj']


def observe(m):
    out = {}
    for f in FIELDS:
        try:
            v = getattr(m, f)
        except AttributeError:
            continue
        if v is not None and np.size(v):
            out[f] = np.array(v, float, copy=True)
    return out


def run(m, steps, moves=None, **kw):
    out = []
    for n, e in enumerate(steps):
        m.step(**nets.step_kwargs(e), **kw)
        if moves and moves[n]:
            m.reposition_junctions()
        out.append(observe(m))
    return out


def same(r, key, a, b, what, **d):
    for s, (x, y) in enumerate(zip(a, b)):
        for f in x:
            r.count(key, x[f].size)
            if not (f in y and x[f].shape == y[f].shape and np.array_equal(x[f], y[f], equal_nan=True)):
                r.violate(key, '%s: %s differs after %d steps' % (what, f, s + 1), first=x[f], second=y.get(f), **d)


def crossings(spec, recs):
    zu = np.array([spec['sj'][k['sj_0']]['z_inv'] + k['in_offset'] for k in spec['sl']])
    zd = np.array([spec['sj'][k['sj_1']]['z_inv'] + k['out_offset'] for k in spec['sl']])
    a = np.array([k['sj_0'] for k in spec['sl']]); b = np.array([k['sj_1'] for k in spec['sl']])
    n = 0
    for x, y in zip(recs, recs[1:]):
        n += ((x['H_j'][a] >= zu) != (y['H_j'][a] >= zu)).sum() + ((x['H_j'][b] >= zd) != (y['H_j'][b] >= zd)).sum()
    return int(n)


def case(r, i, rng, tier):
    mobile = i % 4 == 3
    low = i % 3 == 1
    force = dict(hj_range=(-0.5, 0.3), slope=0.01) if low and not mobile else {}
    if mobile:
        force.update(slope=float(rng.choice([0.008, 0.02])), hj_range=(-0.8, 0.4), internal_links=int(rng.integers(2, 9)), flat=False)
    spec, kw, steps = traj.scenario(rng, int(rng.integers(16)), 36, **force)
    if mobile:
        spec.pop('internals', None)
        nets.canonical(spec)
        kw['mobile_elements'] = True
        n = nets.nik(spec)
        for e in steps:
            if 'Q_0Ik' in e:
                e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, n)]
    elif rng.random() < 0.3:
        kw['auto_permute'] = True
    if rng.random() < 0.3:
        kw['method'] = str(rng.choice(['f', 'lsq', 'nnls']))
    if low:
        # drawdown and refill, so that heads fall below inverts and come back
        for s, e in enumerate(steps):
            e['Q_in'] = [float(v) * (-1 if (s // 6) % 2 else 1) for v in np.abs(e['Q_in'])]
    opt = dict(num_iter=int(rng.choice([1, 1, 2, 4])))
    moves = (rng.random(36) < 0.6).tolist() if mobile else None
    d = dict(spec=spec, kw=kw, steps=steps, moves=moves, **opt)
    r.sample = dict(mobile=mobile, **traj.describe(spec, kw))
    n1, n2 = int(rng.integers(0, 14)), int(rng.integers(3, 14))
    head, tail = steps[:n1], steps[n1:n1 + n2]
    mh, mt = (moves[:n1], moves[n1:n1 + n2]) if mobile else (None, None)

    m = nets.build(spec, **kw)
    first = run(m, head, mh, **opt)
    shape = str(rng.choice(['save', 'auto']))
    if shape == 'save' or not n1:
        m.save_state()
        live = observe(m)
        held = dict(m.states)
        for f, v in held.items():
            cur = getattr(m, f, None)
            if cur is not None and f not in ('V_j',):
                r.check(np.array_equal(np.asarray(v), np.asarray(cur)), 'saved_live', 'saved %s is not the live one' % f, **d)
        for f in live:
            r.check(f in held, 'saved_live', '%s is not part of a saved state' % f, **d)
    else:
        # the state every step saves for itself: the one before it
        m.step(**nets.step_kwargs(tail[0]), **opt)
        held = dict(m.states)
        live = None
        if n1:
            for f in ('H_j', 'h_Ik', 'Q_ik', 't', 'Q_uk', 'Q_dk', 'x_Ik', 'Q_o', 'Q_w', 'Q_p'):
                if f in held and f in first[-1]:
                    r.check(np.array_equal(np.asarray(held[f], float), first[-1][f]), 'undo',
                            'the state kept by a step is not the one before it: %s' % f, kept=held[f], before=first[-1][f], **d)
        m.load_state(copy.deepcopy(held))
    kept = copy.deepcopy(held)
    ref = run(m, tail, mt, **opt)
    r.count('crossed_invert', crossings(spec, ref))
    if mobile:
        r.count('mobile_moved', sum((x['x_Ik'] != y['x_Ik']).sum() for x, y in zip(ref, ref[1:])))
    for f, v in kept.items():
        r.check(np.array_equal(np.asarray(held[f]), np.asarray(v), equal_nan=True), 'snapshot_kept',
                'saved %s was changed by later steps' % f, saved=v, now=held[f], **d)

    # excursion
    kind = str(rng.choice(['none', 'other', 'spinup', 'load']))
    if kind == 'other':
        ex = nets.forcing(rng, spec, 8, lateral=False, qmax=2.0)
        run(m, ex, [True] * 8 if mobile and rng.random() < 0.5 else None, num_iter=1)
    elif kind == 'spinup':
        m.spinup(n_steps=5, dt=3.0, **({'H_bc': np.array(tail[0]['H_bc'])} if 'H_bc' in tail[0] else {}))
    elif kind == 'load':
        m.load_state({'H_j': m.H_j + 0.3})
        run(m, tail[:2], None, **opt)
    r.seen(shape, kind, mobile, low, kw.get('method', 'b'), bool(spec['orifices']), bool(spec['pumps']), bool(kw.get('inertial_damping')),
           bool(spec.get('internals')), opt['num_iter'] > 1)

    # back into the same model
    given = copy.deepcopy(kept)
    m.load_state(given)
    back = observe(m)
    for f in kept:
        if f in back and not f.startswith('A_') and f != 'V_j':
            r.check(np.array_equal(back[f], np.asarray(kept[f], float)), 'restored', 'loading did not restore %s' % f,
                    saved=kept[f], now=back[f], **d)
    r.check(float(m.t) == float(kept['t']), 'clock', 'loading did not restore the clock', saved=kept['t'], now=m.t, **d)
    again = run(m, tail, mt, **opt)
    same(r, 'replayed', ref, again, 'repeating the inputs from a loaded state (excursion: %s)' % kind, **d)
    for f, v in kept.items():
        r.check(np.array_equal(np.asarray(given[f]), np.asarray(v), equal_nan=True), 'snapshot_kept',
                'the loaded %s was changed by later steps' % f, **d)

    # into a fresh model
    m2 = nets.build(spec, **kw)
    m2.load_state(copy.deepcopy(kept))
    same(r, 'replayed_fresh', ref, run(m2, tail, mt, **opt), 'repeating the inputs in a fresh model', **d)

    # two identical runs
    m3 = nets.build(spec, **kw)
    same(r, 'identical_run', first, run(m3, head, mh, **opt), 'repeating the whole run', **d)

    # undo of the last step, with no argument
    e = tail[0]
    m3.step(**nets.step_kwargs(e), **opt)
    a = observe(m3)
    m3.load_state()
    if n1:
        b = observe(m3)
        for f in ('H_j', 'h_Ik', 'Q_ik', 't', 'Q_uk', 'Q_dk'):
            r.check(np.array_equal(b[f], first[-1][f]), 'undo', 'undoing a step does not restore %s' % f, **d)
    m3.step(**nets.step_kwargs(e), **opt)
    same(r, 'undo', [a], [observe(m3)], 'repeating a step that was undone', **d)

    # excluded states stay as they are
    pick = ['Q_ik', 'h_Ik', 'H_j', 'Q_uk', 't']
    ex = set(str(v) for v in rng.choice(pick, int(rng.integers(1, 4)), replace=False))
    before = observe(m3)
    m3.load_state(copy.deepcopy(kept), exclude_states=set(ex))
    now = observe(m3)
    for f in pick:
        want = before[f] if f in ex else np.asarray(kept[f], float)
        r.check(np.array_equal(now[f], want), 'excluded', '%s after a load %s it' % (f, 'excluding' if f in ex else 'including'), **d)
