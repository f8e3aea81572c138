"""Cross-section properties seen by the solver, and the section functions themselves, against exact geometry."""
import numpy as np
from vlib import nets, oracle

PROP = 'C09'
N = {'quick': 1500, 'thorough': 60000}
NEED = ['link_area', 'link_width', 'link_perimeter', 'link_radius', 'end_area', 'uneven_banks']
RULE = ('model cases: a network of mixed sections is put into a random state by loading depths and heads, stepped once '
        'at the same state, and every exposed section property is compared with exact geometry at that depth; function '
        'cases: section functions over depth ranges; behaviours are (source, shape, depth class)')
ASSUME = ['a section is evaluated at the mean of the depths at its two ends',
          'depths within 1e-9 of the crown or bank are skipped (a jump of the width)']
NP = {'circular': 2, 'rect_closed': 3, 'rect_open': 2, 'triangular': 2, 'trapezoidal': 3, 'parabolic': 2,
      'elliptical': 2, 'wide': 2, 'force_main': 2, 'floodplain': 7}


def depth_class(y, g):
    return 'dry' if y <= 0 else 'thin' if y < 1e-3 else 'low' if y < 0.5 * g else 'high' if y < g else 'over'


def depths(rng, top, n):
    m = rng.integers(0, 6, n)
    y = rng.uniform(0, 1, n) * top
    y = np.where(m == 0, rng.uniform(1.0, 1.6, n) * top, y)
    y = np.where(m == 1, 10 ** rng.uniform(-4, -1, n), y)
    y = np.where(m == 2, rng.uniform(0.95, 1.0, n) * top, y)
    return y


def full_depth(sec, tt):
    if sec['shape'] == 'irregular':
        return tt[sec['transect']][0][-1]
    if sec['shape'] == 'floodplain':
        return sec['g1']
    return sec['g1']


def ref(sec, y, tt):
    g = [sec['g%d' % q] for q in range(1, 8)]
    A, B, P, R = oracle.section(sec['shape'], np.array([y]), g, tt.get(sec.get('transect')))
    return A[0], B[0], P[0], R[0]


def model_case(r, i, rng):
    spec = nets.rand_net(rng, M=int(rng.integers(2, 7)), extra=2, ends=bool(i % 2), variable_losses=bool(i % 2), bc=int(rng.integers(0, 2)))
    kw = {}
    secs = None
    if i % 3:
        nets.add_internals(rng, spec)
        kw['mobile_elements'] = False
        if i % 3 == 2:
            # every link its own section
            for rr, d in zip(spec['sl'], spec['internals']):
                d['sections'] = []
                for _ in range(len(d['x']) - 1):
                    shape, g = nets.rand_shape(rng)
                    e = dict(shape=shape, transect='', **{'g%d' % (q + 1): g[q] for q in range(7)})
                    if shape == 'irregular':
                        name = 'X%d' % len(spec['transects'])
                        spec['transects'][name] = nets.rand_transect(rng)
                        e['transect'] = name
                    d['sections'].append(e)
    for t in spec['transects'].values():
        if rng.random() < 0.4:
            # banks of different height, either side
            e = int(rng.choice([0, -1]))
            t['y'][e] = float(t['y'][e] * rng.uniform(0.5, 0.95))
            r.count('uneven_banks')
    nets.canonical(spec)
    R = oracle.Ref(spec)
    tt = R.tt
    secs = []
    for k, rr in enumerate(spec['sl']):
        n = R.nk[k]
        own = spec['internals'][k].get('sections') if spec.get('internals') else None
        secs += own if own else [{**{q: rr[q] for q in ('shape', 'transect')}, **{'g%d' % q: rr['g%d' % q] for q in range(1, 8)}}] * n
    m = nets.build(spec, **kw)
    r.sample = dict(source='model', junctions=R.M, superlinks=R.NK, links=len(secs), sections=sorted(set(s['shape'] for s in secs)),
                    per_link=bool(spec.get('internals') and 'sections' in spec['internals'][0]))
    inp = dict(H_bc=R.z + 1.0) if R.bc.any() else {}
    for rep in range(4):
        top = np.array([full_depth(s, tt) for s in secs])
        h = np.empty(len(R.x_I))
        h[:-1][:0] = 0
        t_I = np.empty(len(R.x_I)); t_I[R.Iu] = top; t_I[R.Iu + 1] = np.maximum(top, 0)
        h = depths(rng, t_I, len(t_I))
        H = R.z + rng.uniform(-0.2, 1.3, R.M) * rng.choice([1.0, 3.0], R.M)
        H = np.maximum(H, R.z + 1e-4)
        st = dict(h_Ik=h, H_j=H, Q_ik=rng.uniform(-.1, .1, len(secs)), Q_uk=np.zeros(R.NK), Q_dk=np.zeros(R.NK))
        for _ in range(2):      # the second step's end sections see this very state's submergence
            m.load_state({k: v.copy() for k, v in st.items()})
            m.step(dt=0.01, **inp)
        y = (h[R.Iu] + h[R.Iu + 1]) / 2
        E = np.array([ref(s, yy, tt) for s, yy in zip(secs, y)])
        got = dict(A=np.asarray(m.A_ik), B=np.asarray(m.B_ik), P=np.asarray(m.Pe_ik), R=np.asarray(m.R_ik))
        for c, (nm, key) in enumerate((('A', 'link_area'), ('B', 'link_width'), ('P', 'link_perimeter'), ('R', 'link_radius'))):
            ok = (np.abs(y - top) > 1e-9)
            g, e = got[nm], E[:, c]
            tol = 1e-6 * np.abs(e) + 1e-7
            bad = ok & ~(np.abs(g - e) <= tol)
            r.count(key, ok.sum())
            if bad.any():
                a = int(np.flatnonzero(bad)[0])
                r.violate(key, '%s of a %s section at depth %.6g is %.9g, geometry says %.9g' % (nm, secs[a]['shape'], y[a], g[a], e[a]),
                          link=a, section=secs[a], depth=y[a], spec=spec, kw=kw)
        for a in range(len(secs)):
            r.seen('link', secs[a]['shape'], depth_class(y[a], top[a]))
        thu, thd = (H[R.Ju] >= R.zu) * 1.0, (H[R.Jd] >= R.zd) * 1.0
        for side, ix, I, th, J, zz, gotA, end in (('upstream', R.i1, R.I1, thu, R.Ju, R.zu, m.A_uk, 'uk'), ('downstream', R.iN, R.IN, thd, R.Jd, R.zd, m.A_dk, 'dk')):
            ye = (h[I] + th * (H[J] - zz)) / 2
            for k in range(R.NK):
                s = secs[ix[k]]
                if abs(H[J[k]] - zz[k]) < 1e-9 or abs(ye[k] - full_depth(s, tt)) < 1e-9:
                    continue
                full = ref(s, ye[k], tt)
                e = full[0]
                r.check(abs(gotA[k] - e) <= 1e-6 * e + 1e-7, 'end_area', '%s end of a %s superlink: area at depth %.6g is %.9g, geometry says %.9g'
                        % (side, s['shape'], ye[k], gotA[k], e), superlink=k, section=s, spec=spec, kw=kw, H=H, h=h)
                # widths, perimeters and radii of the ends enter end volumes and the momentum form of the end condition
                for q, v in zip(('B', 'Pe', 'R'), full[1:]):
                    own = getattr(m, '_%s_%s' % (q, end), None)
                    # (the perimeter of elliptical ends is never computed; nothing but the excluded boundary method 'b' reads it)
                    if own is not None and (q == 'B' or s['shape'] != 'elliptical'):
                        r.check(abs(own[k] - v) <= 1e-6 * abs(v) + 1e-7, 'end_section', '%s end of a %s superlink: %s at depth %.6g is %.9g, geometry says %.9g'
                                % (side, s['shape'], q, ye[k], own[k], v), superlink=k, section=s, spec=spec, kw=kw, H=H, h=h)
                r.seen('end', s['shape'], depth_class(ye[k], full_depth(s, tt)))


def function_case(r, i, rng):
    import pipedream_solver.ngeometry as ng
    shape = sorted(NP)[i % len(NP)]
    _, g = nets.rand_shape(rng, shape=shape)
    if shape in ('circular', 'force_main') and not g[1]:
        g[1] = 0.001
    if shape == 'rect_closed' and not g[2]:
        g[2] = 0.001
    name = '_'.join(w.capitalize() for w in shape.split('_'))
    fn = {q: getattr(ng, '%s_%s_ik' % (name, q), None) for q in ('A', 'B', 'Pe')}
    r.sample = dict(source='functions', shape=shape, g=g)
    n = 60
    y = np.sort(depths(rng, g[0], n))
    y = y[np.abs(y - g[0]) > 1e-9]
    d = rng.uniform(-1, 1, len(y)) * np.minimum(y, 0.2)      # any split between the two ends
    A, B, P, R = oracle.section(shape, y, g)
    na = {'A': NP[shape], 'B': NP[shape], 'Pe': NP[shape]}
    if shape == 'circular':
        na['A'] = na['Pe'] = 1
    if shape == 'rect_closed':
        na['A'] = na['Pe'] = 2
    vals = {}
    for q, e in (('A', A), ('B', B), ('Pe', P)):
        f = fn[q]
        if f is None:
            r.count('function_absent'); continue
        try:
            v = np.array([f(float(a + b), float(a - b), *[float(x) for x in g[:na[q]]]) for a, b in zip(y, d)])
        except TypeError:
            r.count('function_absent'); continue
        vals[q] = v
        bad = ~(np.abs(v - e) <= 1e-6 * np.abs(e) + 1e-7)
        r.count('function', len(v))
        if bad.any():
            a = int(np.flatnonzero(bad)[0])
            r.violate('function', '%s of a %s section at depth %.6g is %.9g, geometry says %.9g' % (q, shape, y[a], v[a], e[a]), g=g)
    if 'A' in vals:
        r.check((np.diff(vals['A']) >= -1e-9).all(), 'monotone', 'area of a %s section decreases with depth' % shape, g=g, y=y)
    if 'A' in vals and 'B' in vals and shape != 'force_main':
        f, b = fn['A'], fn['B']
        for yy in y[(y > 1e-2) & (y < 0.99 * g[0])]:
            e = 1e-5
            if shape == 'floodplain' and min(abs(yy - g[1]), abs(yy - g[1] - g[2])) < 1e-4:
                continue
            x = [float(v) for v in g]
            dA = (f(yy + e, yy + e, *x[:na['A']]) - f(yy - e, yy - e, *x[:na['A']])) / (2 * e)
            w = b(yy, yy, *x[:na['B']])
            r.check(abs(dA - w) <= 1e-4 * (1 + abs(w)), 'width_is_dA', 'rate of change of the area of a %s section with depth is %.6g, its width %.6g'
                    % (shape, dA, w), depth=yy, g=g)
    for yy in y:
        r.seen('function', shape, depth_class(yy, g[0]))
    # the vectorised section classes
    import pipedream_solver.geometry as pg
    cls = getattr(pg, name, None)
    if cls is not None and shape != 'floodplain':
        c = cls
        for q, e in (('A', A), ('B', B), ('Pe', P)):
            f = getattr(c, q + '_ik', None)
            if f is None:
                continue
            k = {'g%d' % (a + 1): np.full(len(y), g[a]) for a in range({'circular': 1, 'rect_closed': 2}.get(shape, NP[shape]))}
            if q == 'B' and shape == 'circular':
                k['pslot'] = g[1]
            if q == 'B' and shape == 'rect_closed':
                k['pslot'] = g[2]
            try:
                v = np.asarray(f(y + d, y - d, **k))
            except TypeError:
                r.count('class_skipped'); continue
            bad = ~(np.abs(v - e) <= 1e-6 * np.abs(e) + 1e-7)
            r.count('class', len(y))
            if bad.any():
                a = int(np.flatnonzero(bad)[0])
                r.violate('class', '%s.%s at depth %.6g is %.9g, geometry says %.9g' % (name, q, y[a], v[a], e[a]), g=g)


def case(r, i, rng, tier):
    (function_case if i % 4 == 3 else model_case)(r, i // 4 if i % 4 == 3 else i, rng)
