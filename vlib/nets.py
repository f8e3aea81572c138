"""Random drainage networks and workloads, as JSON-able specifications."""
import numpy as np
import pandas as pd

SHAPES = ['circular', 'rect_closed', 'rect_open', 'triangular', 'trapezoidal',
          'parabolic', 'elliptical', 'wide', 'force_main', 'floodplain', 'irregular']


def _u(rng, a, b):
    return float(rng.uniform(a, b))


def _lu(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def rand_shape(rng, shape=None, shapes=SHAPES):
    shape = shape or str(rng.choice(shapes))
    g = [0.0] * 7
    if shape == 'circular':
        g[0] = _u(rng, 0.8, 3.0); g[1] = float(rng.choice([0.0, 0.01, 0.02]))
    elif shape == 'rect_closed':
        g[0] = _u(rng, 0.8, 3.0); g[1] = _u(rng, 0.8, 4.0); g[2] = float(rng.choice([0.0, 0.01, 0.05]))
    elif shape == 'rect_open':
        g[0] = _u(rng, 1.5, 5.0); g[1] = _u(rng, 0.8, 6.0)
    elif shape == 'triangular':
        g[0] = _u(rng, 1.5, 5.0); g[1] = _u(rng, 0.8, 3.0)
    elif shape == 'trapezoidal':
        g[0] = _u(rng, 1.5, 5.0); g[1] = _u(rng, 0.8, 4.0); g[2] = _u(rng, 0.3, 2.5)
    elif shape == 'parabolic':
        g[0] = _u(rng, 1.5, 5.0); g[1] = _u(rng, 1.0, 6.0)
    elif shape == 'elliptical':
        g[0] = _u(rng, 1.5, 4.0); g[1] = _u(rng, 1.0, 4.0)
    elif shape == 'wide':
        g[0] = _u(rng, 2.0, 5.0); g[1] = _u(rng, 3.0, 12.0)
    elif shape == 'force_main':
        g[0] = _u(rng, 0.6, 2.0); g[1] = float(rng.choice([0.0, 0.01, 0.05]))
    elif shape == 'floodplain':
        g[0] = _u(rng, 3.0, 6.0); g[1] = _u(rng, 0.4, 1.0); g[2] = _u(rng, 0.4, 1.0)
        g[3] = _u(rng, 2.0, 6.0); g[4] = _u(rng, 0.5, 2.0); g[5] = _u(rng, 1.0, 4.0)
        g[6] = _u(rng, 0.5, 3.0)
    return shape, g


def rand_transect(rng):
    n = int(rng.integers(5, 10))
    x = np.sort(rng.uniform(0, 12, n))
    x = x - x[0] + np.arange(n) * 0.2
    depth = rng.uniform(2.5, 5.0)
    mid = x.mean()
    y = depth * (np.abs(x - mid) / np.abs(x - mid).max()) ** rng.uniform(0.8, 2.0)
    y = y + rng.uniform(0, 0.2, n)
    y = y - y.min()
    y[0] = y[-1] = max(y.max(), depth)
    t = {'x': [float(v) for v in x], 'y': [float(v) for v in y]}
    if rng.random() < 0.5:
        t['sample_points'] = int(rng.integers(20, 160))
    return t


def rand_net(rng, M=None, extra=None, shapes=SHAPES, controls=(), tabular=False, bc=None,
             internal_links=None, wet=None, friction=('cm',), ends=False, offsets=True,
             bc_method='z', slope=0.004, topology=None, ctrl=False, A_s=True, flat=False,
             max_depth=False, hj_range=(0.4, 1.8), variable_losses=False):
    """A connected network.  `controls`: subset of 'o','w','p' (one or more of each)."""
    M = int(M or rng.integers(2, 9))
    topology = topology or str(rng.choice(['chain', 'tree', 'star', 'tree']))
    pairs = []
    for j in range(1, M):
        if topology == 'chain':
            p = j - 1
        elif topology == 'star':
            p = 0
        else:
            p = int(rng.integers(0, j))
        pairs.append((j, p))
    extra = int(rng.integers(0, 3)) if extra is None else extra
    for _ in range(extra if M > 1 else 0):
        a, b = rng.choice(M, 2, replace=False)
        pairs.append((int(a), int(b)))
    # relabel so that labels carry no order
    perm = rng.permutation(M)
    pairs = [(int(perm[a]), int(perm[b])) for a, b in pairs]
    rng.shuffle(pairs)
    L = [_u(rng, 60, 300) for _ in pairs]
    z = np.zeros(M)
    # elevations from a potential so that slopes stay mild on all links
    z = rng.uniform(0, 1, M) * slope * 120 if not flat else np.zeros(M)
    z = z + rng.uniform(-5, 50)
    if bc is None:
        nbc = int(rng.integers(0, 2 if M < 4 else 3))
    else:
        nbc = bc
    bcs = set(int(v) for v in rng.choice(M, min(nbc, M), replace=False))
    surf = z.max() + _u(rng, *hj_range) if wet is None else wet
    sj = []
    storages = {}
    if tabular:
        for t in range(int(rng.integers(1, 4))):
            n = int(rng.integers(2, 6))
            h = np.concatenate([[0.0], np.cumsum(rng.uniform(0.3, 2.0, n))])
            A = rng.uniform(20, 300, n + 1)
            if rng.random() < 0.5:
                A = np.sort(A)
            # above the table the largest area is used: keep it last, so the curve is continuous
            A[-1] = A.max()
            storages['%s%d' % (rng.choice(['T', 'b', 'Q', 'a']), t)] = {'h': [float(v) for v in h], 'A': [float(v) for v in A]}
    for j in range(M):
        d = dict(z_inv=float(z[j]), h_0=float(max(0.05, surf - z[j] + rng.uniform(-0.25, 0.25))),
                 bc=bool(j in bcs), storage='functional', a=0.0, b=0.0, c=_lu(rng, 3, 300))
        if rng.random() < 0.5:
            d['a'] = _u(rng, 1, 40); d['b'] = float(rng.choice([0.5, 1.0, 1.7, 2.0]))
        if storages and rng.random() < 0.6:
            d['storage'] = 'tabular'; d['table'] = str(rng.choice(sorted(storages)))
        d['max_depth'] = float('inf') if not max_depth else (_u(rng, 1.0, 3.0) if rng.random() < 0.5 else float('inf'))
        sj.append(d)
    transects = {}
    sl = []
    for n, (a, b) in enumerate(pairs):
        shape, g = rand_shape(rng, shapes=shapes)
        lo = min(z[a], z[b])
        d = dict(sj_0=a, sj_1=b, in_offset=0.0, out_offset=0.0, dx=L[n], shape=shape,
                 roughness=_u(rng, 0.010, 0.035), friction_method=str(rng.choice(friction)),
                 Q_0=0.0, h_0=float(max(0.05, surf - 0.5 * (z[a] + z[b]))), A_s=0.0,
                 ctrl=False, A_c=0.0, C=0.0, transect='')
        for i in range(7):
            d['g%d' % (i + 1)] = g[i]
        if d['friction_method'] == 'hw':
            d['roughness'] = _u(rng, 80, 150)
        elif d['friction_method'] == 'dw':
            d['roughness'] = _lu(rng, 1e-4, 5e-3)
        if A_s:
            d['A_s'] = float(rng.choice([0.0, 0.0, 1.0, 3.0]))
        if offsets and rng.random() < 0.4:
            # keep the declared orientation non-adverse
            if z[a] >= z[b]:
                d['in_offset'] = _u(rng, 0.0, 0.2)
            else:
                d['out_offset'] = 0.0
            if z[a] + d['in_offset'] > z[b] + 0.05 and rng.random() < 0.5:
                d['out_offset'] = _u(rng, 0.0, 0.05)
        if shape == 'irregular':
            name = '%s%d' % (rng.choice(['X', 'b', 'Q', 'a']), len(transects))
            if transects and rng.random() < 0.4:
                name = str(rng.choice(sorted(transects)))
            else:
                transects[name] = rand_transect(rng)
            d['transect'] = name
        if ends:
            d['dx_uk'] = _u(rng, 2, 10); d['dx_dk'] = _u(rng, 2, 10)
        if variable_losses:
            d['C_uk'] = _u(rng, 0.0, 3.0); d['C_dk'] = _u(rng, 0.0, 3.0)
        if ctrl and rng.random() < 0.4:
            d['ctrl'] = True; d['A_c'] = _u(rng, 0.5, 2.0); d['C'] = _u(rng, 0.3, 1.0)
        sl.append(d)
    spec = dict(sj=sj, sl=sl, transects=transects, storages=storages,
                orifices=[], weirs=[], pumps=[],
                kw=dict(internal_links=int(internal_links or rng.integers(2, 7)), bc_method=bc_method))

    def pair():
        a, b = rng.choice(M, 2, replace=False)
        return int(a), int(b)
    if M > 1:
        if 'o' in controls:
            for _ in range(int(rng.integers(1, 4))):
                a, b = pair()
                o = dict(sj_0=a, sj_1=b, A=_u(rng, 0.1, 1.0), C=_u(rng, 0.4, 0.9), z_o=_u(rng, 0.0, 0.8),
                         y_max=0.0, orientation=str(rng.choice(['side', 'bottom'])), oneway=bool(rng.random() < 0.3),
                         shape=str(rng.choice(['circular', 'rect_closed', 'rect_open'])))
                o['g1'] = _u(rng, 0.3, 1.2); o['g2'] = _u(rng, 0.3, 1.2); o['g3'] = 0.0
                o['y_max'] = o['g1']
                spec['orifices'].append(o)
        if 'w' in controls:
            for _ in range(int(rng.integers(1, 4))):
                a, b = pair()
                spec['weirs'].append(dict(sj_0=a, sj_1=b, z_w=_u(rng, 0.1, 1.2), y_max=_u(rng, 0.3, 1.0),
                                          Cr=_u(rng, 1.0, 2.0), Ct=_u(rng, 0.5, 1.5), L=_u(rng, 0.3, 3.0),
                                          s=_u(rng, 0.0, 1.5)))
        if 'p' in controls:
            for _ in range(int(rng.integers(1, 3))):
                a, b = pair()
                ap = _u(rng, 5.0, 15.0)
                spec['pumps'].append(dict(sj_0=a, sj_1=b, z_p=_u(rng, 0.05, 0.8), a_p=ap,
                                          b_p=_u(rng, 0.5, 5.0), c_p=float(rng.choice([1.0, 1.5, 2.0])),
                                          dH_min=_u(rng, 0.0, 0.5), dH_max=_u(rng, 1.0, 0.9 * ap)))
    return spec


def canonical(spec):
    """Redeclare adverse superlinks downhill (in place), swapping their end attributes."""
    z = [r['z_inv'] for r in spec['sj']]
    for r in spec['sl']:
        if z[r['sj_0']] + r['in_offset'] < z[r['sj_1']] + r['out_offset']:
            r['sj_0'], r['sj_1'] = r['sj_1'], r['sj_0']
            r['in_offset'], r['out_offset'] = r['out_offset'], r['in_offset']
            for p, q in (('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
                if p in r:
                    r[p], r[q] = r[q], r[p]
    return spec


def add_internals(rng, spec, uniform=False, nk=None, vary=True):
    """User-supplied internal junctions and links, differing in number per superlink."""
    canonical(spec)
    out = []
    for r in spec['sl']:
        n = int(nk or rng.integers(2, 8))
        w = np.ones(n) if uniform else rng.uniform(0.5, 1.5, n)
        x = np.concatenate([[0.0], np.cumsum(w)]) / w.sum() * r['dx']
        d = dict(x=[float(v) for v in x])
        if vary:
            d['A_s'] = [float(v) for v in r['A_s'] * rng.uniform(0.5, 1.5, n + 1)]
            d['roughness'] = [float(v) for v in r['roughness'] * rng.uniform(0.8, 1.2, n)]
            d['h_0'] = [float(v) for v in r['h_0'] * rng.uniform(0.8, 1.2, n + 1)]
        out.append(d)
    spec['internals'] = out
    return spec


def internal_tables(spec):
    """The links and junctions tables, and j_0/j_1 for the superlink table."""
    z = [r['z_inv'] for r in spec['sj']]
    L, J, j0, j1 = [], [], [], []
    for k, (r, d) in enumerate(zip(spec['sl'], spec['internals'])):
        x = d['x']
        n = len(x) - 1
        zu, zd = z[r['sj_0']] + r['in_offset'], z[r['sj_1']] + r['out_offset']
        du, dd = r.get('dx_uk', 0.0), r.get('dx_dk', 0.0)
        m = (zd - zu) / (r['dx'] + du + dd)
        base = len(J)
        j0.append(base); j1.append(base + n)
        for i in range(n + 1):
            J.append(dict(id=len(J), k=k, h_0=d.get('h_0', [r['h_0']] * (n + 1))[i],
                          A_s=d.get('A_s', [r['A_s']] * (n + 1))[i], z_inv=zu + m * du + m * x[i]))
        for i in range(n):
            e = dict(id=len(L), j_0=base + i, j_1=base + i + 1, k=k, dx=x[i + 1] - x[i],
                     roughness=d.get('roughness', [r['roughness']] * n)[i],
                     friction_method=r['friction_method'], shape=r['shape'], transect=r['transect'],
                     Q_0=r['Q_0'], ctrl=r['ctrl'], A_c=r['A_c'], C=r['C'])
            for q in range(1, 8):
                e['g%d' % q] = r['g%d' % q]
            if 'sections' in d:
                e.update(d['sections'][i])
            L.append(e)
    return pd.DataFrame(L), pd.DataFrame(J), j0, j1


def nik(spec):
    if spec.get('internals'):
        return sum(len(d['x']) for d in spec['internals'])
    return (spec['kw']['internal_links'] + 1) * len(spec['sl'])


def tables(spec):
    M = len(spec['sj'])
    sj = pd.DataFrame(spec['sj'])
    if 'table' in sj.columns:
        sj['table'] = sj['table'].astype(object)
    elif spec['storages']:
        sj['table'] = None
    sj['id'] = np.arange(M)
    sj['name'] = ['J%d' % j for j in range(M)]
    sj['map_x'] = np.arange(M, dtype=float)
    sj['map_y'] = 0.0
    sl = pd.DataFrame(spec['sl'])
    sl['id'] = np.arange(len(sl))
    sl['name'] = ['K%d' % k for k in range(len(sl))]
    extra = {}
    if spec.get('internals'):
        links, juncs, j0, j1 = internal_tables(spec)
        sl['j_0'] = j0; sl['j_1'] = j1
        extra = dict(links=links, junctions=juncs)
    out = dict(superlinks=sl, superjunctions=sj, **extra,
               transects={k: {a: np.array(b, dtype=float) if a in 'xy' else b for a, b in t.items()}
                          for k, t in spec['transects'].items()},
               storages={k: {a: np.array(b, dtype=float) for a, b in t.items()}
                         for k, t in spec['storages'].items()})
    for c in ('orifices', 'weirs', 'pumps'):
        if spec[c]:
            t = pd.DataFrame(spec[c])
            t['id'] = np.arange(len(t))
            out[c] = t
    return out


def build(spec, cls=None, **kw):
    if cls is None:
        from pipedream_solver.nsuperlink import nSuperLink as cls
    k = dict(spec['kw'])
    k.update(kw)
    t = tables(spec)
    sl, sj = t.pop('superlinks'), t.pop('superjunctions')
    return cls(sl, sj, **t, **k)


def forcing(rng, spec, n, dts=(5.0, 10.0, 20.0, 30.0), qmax=1.5, lateral=False, negative=False, hold_bc=False):
    """n step-inputs.  Boundary heads vary slowly around their initial values."""
    M = len(spec['sj'])
    h0 = np.array([s['z_inv'] + s['h_0'] for s in spec['sj']])
    bc = np.array([s['bc'] for s in spec['sj']])
    nI = nik(spec)
    base = rng.uniform(0, qmax, M) * (rng.random(M) < 0.6)
    per = rng.uniform(100, 2000, M); ph = rng.uniform(0, 6.28, M)
    amp = rng.uniform(0.0, 0.3, M)
    mode = rng.integers(0, 3)
    t = 0.0
    out = []
    no, nw, npm = len(spec['orifices']), len(spec['weirs']), len(spec['pumps'])
    uo, uw, up = rng.random(no), rng.random(nw), (rng.random(npm) < 0.8).astype(float)
    dt = float(rng.choice(dts))
    for i in range(n):
        if rng.random() < 0.25:
            dt = float(rng.choice(dts)) * float(rng.uniform(0.7, 1.3))
        t += dt
        if mode == 0:
            q = base.copy()
        elif mode == 1:
            q = base * (1 + np.sin(2 * np.pi * t / per + ph)) / 2
        else:
            q = base * (rng.random(M) < 0.5)
        if negative:
            q = q * rng.choice([-0.2, 1.0], size=M)
        if rng.random() < 0.2:
            uo, uw = rng.random(no), rng.random(nw)
            uo = np.where(rng.random(no) < 0.2, rng.integers(0, 2, no), uo)
            uw = np.where(rng.random(nw) < 0.2, rng.integers(0, 2, nw), uw)
            up = (rng.random(npm) < 0.8) * rng.choice([1.0, 1.0, 0.5], size=npm)
        H = h0 + (0 if hold_bc else amp * np.sin(2 * np.pi * t / per + ph))
        e = dict(dt=dt, Q_in=[float(v) for v in q])
        if bc.any():
            e['H_bc'] = [float(v) for v in H]
        if lateral:
            e['Q_0Ik'] = [float(v) for v in rng.uniform(0, 0.01, nI)]
        if no:
            e['u_o'] = [float(v) for v in uo]
        if nw:
            e['u_w'] = [float(v) for v in uw]
        if npm:
            e['u_p'] = [float(v) for v in up]
        out.append(e)
    return out


def step_kwargs(e):
    return {k: (np.array(v, dtype=float) if isinstance(v, list) else v) for k, v in e.items()}
