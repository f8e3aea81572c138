"""Surface area and volume of superjunctions against the declared relations."""
import copy
import numpy as np
from vlib import nets, oracle

PROP = 'C10'
N = {'quick': 1500, 'thorough': 60000}
NEED = ['functional_area', 'functional_volume', 'tabular_area', 'tabular_volume', 'below_bottom', 'above_table']
RULE = ('a network mixing functional and tabular junctions (shared, unsorted and unused tables) is put into random heads '
        'and stepped; area and volume of every junction are compared with the declared relation; one evaluation per '
        'junction and state; behaviours are (storage kind, exponent class or table size, depth class, mixture)')
ASSUME = ['above a table its largest area (declared last) is continued; volumes between table points are interpolated']


def tables(rng):
    T = {}
    names = list(rng.permutation(['pond', 'tank', 'basin', 'A1', 'zz', 'lake', 'm', 'B2']))[:int(rng.integers(1, 6))]
    for t in names:
        n = int(rng.integers(1, 8))
        h = np.concatenate([[0.0], np.cumsum(rng.uniform(0.2, 1.5, n))])
        A = rng.uniform(20, 400, n + 1)
        A[-1] = A.max()
        T[str(t)] = dict(h=[float(v) for v in h], A=[float(v) for v in A])
    return T


def volume(row, T, h):
    if row['storage'] == 'functional':
        return row['a'] / (row['b'] + 1) * h ** (row['b'] + 1) + row['c'] * h
    t = T[row['table']]
    hh, AA = np.asarray(t['h']), np.asarray(t['A'])
    V = np.concatenate([[0], np.cumsum(np.diff(hh) * (AA[1:] + AA[:-1]) / 2)])
    return V[-1] + AA[-1] * (h - hh[-1]) if h >= hh[-1] else np.interp(h, hh, V)


def area(row, T, h):
    if row['storage'] == 'functional':
        return row['a'] * h ** row['b'] + row['c']
    t = T[row['table']]
    return np.interp(h, t['h'], t['A'])


def case(r, i, rng, tier):
    spec = nets.rand_net(rng, M=int(rng.integers(2, 12)), shapes=['rect_open', 'wide', 'trapezoidal'], bc=int(rng.integers(0, 2)))
    mix = i % 4
    T = spec['storages'] = {} if mix == 0 else tables(rng)
    for s in spec['sj']:
        s['b'] = float(rng.choice([0.0, 0.5, 1.0, 2.0, float(rng.uniform(0, 3))])); s['a'] = float(rng.choice([0.0, rng.uniform(1, 60)]))
        if T and (mix == 3 or rng.random() < 0.5):
            s['storage'] = 'tabular'; s['table'] = str(rng.choice(sorted(T)))
        else:
            s['storage'] = 'functional'
            if T and rng.random() < 0.3:
                s['table'] = str(rng.choice(sorted(T)))    # ignored for functional storage
    md = float(10 ** rng.uniform(-6, -2)) if rng.random() < 0.5 else 1e-5
    m = nets.build(spec, min_depth=md)
    z = np.array([s['z_inv'] for s in spec['sj']])
    tabs = [s['storage'] == 'tabular' for s in spec['sj']]
    r.sample = dict(junctions=len(z), tabular=sum(tabs), tables=len(T))
    bc = any(s['bc'] for s in spec['sj'])
    for rep in range(5):
        top = np.array([T[s['table']]['h'][-1] if s['storage'] == 'tabular' else 4.0 for s in spec['sj']])
        d = rng.uniform(0, 1, len(z)) * top
        pick = rng.integers(0, 6, len(z))
        d = np.where(pick == 0, top * rng.uniform(1.0, 2.0, len(z)), d)
        d = np.where(pick == 1, rng.choice([0.0, -0.3, md / 2, 1e-3], len(z)), d)
        if rng.random() < 0.5:
            for j, s in enumerate(spec['sj']):
                if s['storage'] == 'tabular' and pick[j] == 2:
                    d[j] = float(rng.choice(T[s['table']]['h']))      # exactly at a table point
        H = z + d
        m.load_state(dict(H_j=H.copy()))
        for when in ('loaded', 'stepped'):
            if when == 'stepped':
                m.step(dt=0.01, **(dict(H_bc=H) if bc else {}))
            A, V = np.asarray(m.A_sj), np.asarray(m.V_j)
            for j, s in enumerate(spec['sj']):
                h = max(H[j] - z[j], md)
                k = s['storage']
                ea = area(s, T, h)
                near = k == 'tabular' and min(abs(h - v) for v in T[s['table']]['h']) < 1e-9
                r.check(abs(A[j] - ea) <= 1e-6 * (ea + 1e-3) + (1e-5 if near else 0), k + '_area',
                        '%s area of junction %d at depth %.6g is %.9g, declared %.9g' % (k, j, h, A[j], ea), spec=spec, H=H, when=when)
                if when == 'stepped':
                    ev = volume(s, T, h)
                    r.check(abs(V[j] - ev) <= 1e-6 * (ev + 1e-3) + 1e-9 * abs(z[j]) * ea, k + '_volume',
                            '%s volume of junction %d at depth %.6g is %.9g, declared %.9g' % (k, j, h, V[j], ev), spec=spec, H=H)
                    if d[j] <= md:
                        r.count('below_bottom')
                    if k == 'tabular' and d[j] > top[j]:
                        r.count('above_table')
                    r.seen(k, s['b'] if k == 'functional' else len(T[s['table']]['h']),
                           'low' if d[j] <= md else 'above' if d[j] > top[j] else 'in', sum(tabs) if sum(tabs) < 3 else 'many', len(T))
    import pipedream_solver.storage as st
    try:
        h = np.concatenate([[0.0], rng.uniform(0, 6, 20)])
        a, b, c = rng.uniform(0, 50), rng.uniform(0, 3), rng.uniform(1, 100)
        fa, fv = st.Functional.A_sj(h.copy(), a=a, b=b, c=c), st.Functional.V_sj(h.copy(), a=a, b=b, c=c)
        pairs = [(fa, a * h ** b + c), (fv, a / (b + 1) * h ** (b + 1) + c * h)]
        for t in T.values():
            o = st.Tabular(t['h'], t['A'])
            row = dict(storage='tabular', table='t')
            pairs += [(o.A_sj(h), [area(row, {'t': t}, v) for v in h]), (o.V_sj(h), [volume(row, {'t': t}, v) for v in h])]
    except (AttributeError, TypeError):
        r.count('class_skipped')
        return
    for x, y in pairs:
        r.close(x, y, 'classes', 'storage relation class', rtol=1e-7, atol=1e-7, tables=T)
