"""Independent reference model: section geometry, storage, and the discrete balance
equations of the solver, evaluated on observed states only (H_j, h_Ik, Q_ik, Q_uk, Q_dk,
Q_o, Q_w, Q_p before and after a step, and the step's inputs).  It is built from the
network *specification*; nothing is read from the model's internals."""
import numpy as np
import scipy.special

G = 9.81


# ------------------------------------------------------------------ section geometry

def section(shape, y, g, transect=None):
    """(A, B, Pe, full) at depths y (array) for parameters g[0..6]; exact mathematics,
    with the documented closed-top / bank-full conventions."""
    y = np.atleast_1d(np.asarray(y, dtype=float))
    y = np.maximum(y, 0.0)
    g1, g2, g3, g4, g5, g6, g7 = [float(v) for v in g]
    one = np.ones_like(y)
    if shape == 'circular':
        yc = np.minimum(y, g1)
        r = g1 / 2
        th = 2 * np.arccos(np.clip(1 - yc / r, -1, 1))      # central angle
        A = r * r * (th - np.sin(th)) / 2
        Pe = r * th
        slot = g2 if g2 else 0.001
        B = np.where(y < g1, 2 * np.sqrt(np.maximum(yc * (g1 - yc), 0)), slot * g1)
    elif shape == 'rect_closed':
        yc = np.minimum(y, g1)
        A = yc * g2; Pe = g2 + 2 * yc
        slot = g3 if g3 else 0.001
        B = np.where(y < g1, g2, slot * g2)
    elif shape == 'rect_open':
        yc = np.minimum(y, g1); A = yc * g2; Pe = g2 + 2 * yc; B = g2 * one
    elif shape == 'triangular':
        yc = np.minimum(y, g1); A = g2 * yc * yc; B = 2 * g2 * yc
        Pe = 2 * np.hypot(yc, g2 * yc)
    elif shape == 'trapezoidal':
        yc = np.minimum(y, g1); A = g2 * yc + g3 * yc * yc; B = g2 + 2 * g3 * yc
        Pe = g2 + 2 * np.hypot(yc, g3 * yc)
    elif shape == 'parabolic':
        yc = np.minimum(y, g1)
        B = g2 * np.sqrt(yc / g1)
        A = 2 / 3 * B * yc
        yp = np.maximum(yc, 1e-300)
        T = g2 * np.sqrt(yp / g1)
        s = 4 * yp / T
        # arc length of y = s/T x^2
        Pe = np.where(yc > 0, T / 2 * (np.sqrt(1 + s * s) + np.arcsinh(s) / s), 0.0)
    elif shape == 'elliptical':
        yc = np.minimum(y, g1)
        b, a = g1 / 2, g2 / 2
        e = np.clip((yc - b) / b, -1, 1)
        th = np.arcsin(e)
        A = a * b * (np.pi / 2 + th + e * np.sqrt(1 - e * e))
        B = 2 * a * np.sqrt(np.maximum(1 - e * e, 0))
        # ds^2 = (a^2 sin^2 + b^2 cos^2) dth^2 = b^2 (1 - m sin^2) dth^2, m = 1 - a^2/b^2
        m = 1 - a * a / (b * b)
        Pe = 2 * b * (scipy.special.ellipeinc(th, m) - scipy.special.ellipeinc(-np.pi / 2, m))
    elif shape == 'wide':
        yc = np.minimum(y, g1); A = g2 * yc; B = g2 * one; Pe = g2 * one
    elif shape == 'force_main':
        A = np.pi * g1 * g1 / 4 * one; Pe = np.pi * g1 * one
        B = (g2 if g2 else 0.001) * g1 * one
    elif shape == 'floodplain':
        yc = np.minimum(y, g1)
        y0 = np.minimum(yc, g2); y1 = np.clip(yc - g2, 0, g3); y2 = np.maximum(yc - g2 - g3, 0)
        b0 = 0.0; b1 = 2 * g5 * g2; b2 = b1 + 2 * g6 * g3
        A = g5 * y0 ** 2 + (b1 * y1 + g6 * y1 ** 2) + (b2 * y2 + g4 * y2 ** 2) + g7 * yc
        pos = (yc > 0)
        B = 2 * g5 * y0 + 2 * g6 * y1 + 2 * g4 * y2 + g7 * pos
        Pe = 2 * (np.hypot(y0, g5 * y0) + np.hypot(y1, g6 * y1) + np.hypot(y2, g4 * y2)) + g7 * pos
    elif shape == 'irregular':
        zs, As, Bs, Ps, Rs = transect
        A = np.interp(y, zs, As); B = np.interp(y, zs, Bs); Pe = np.interp(y, zs, Ps)
        return A, B, Pe, np.interp(y, zs, Rs)
    else:
        raise KeyError(shape)
    R = np.where(Pe > 0, A / np.where(Pe > 0, Pe, 1), 0.0)
    return A, B, Pe, R


def transect_exact(w, x, y):
    """(A, B, Pe) of the polygon below water level w."""
    A = B = P = 0.0
    for x0, x1, y0, y1 in zip(x[:-1], x[1:], y[:-1], y[1:]):
        d0, d1 = w - y0, w - y1
        dx, dy = x1 - x0, y1 - y0
        if d0 < 0 and d1 < 0:
            continue
        if d0 >= 0 and d1 >= 0:
            A += dx * (d0 + d1) / 2; B += dx; P += np.hypot(dx, dy)
        else:
            f = max(d0, d1) / abs(dy)              # wetted fraction
            A += f * dx * max(d0, d1) / 2; B += f * dx; P += f * np.hypot(dx, dy)
    return A, B, P


def transect_table(t):
    x = np.asarray(t['x'], float); y = np.asarray(t['y'], float)
    n = int(t.get('sample_points', 100))
    zs = np.linspace(0.0, y.max(), n)
    E = np.array([transect_exact(w, x, y) for w in zs])
    R = np.where(E[:, 2] > 0, E[:, 0] / np.where(E[:, 2] > 0, E[:, 2], 1), 0)
    return zs, E[:, 0], E[:, 1], E[:, 2], R


# ------------------------------------------------------------------ the shadow network

def _f(rows, key, default=0.0):
    return np.array([float(r.get(key, default)) for r in rows], dtype=float)


class Ref:
    def __init__(self, spec, min_depth=1e-5, inertial_damping=False):
        self.spec = spec
        self.min_depth = min_depth
        self.damp = inertial_damping
        sj, sl = spec['sj'], [dict(r) for r in spec['sl']]
        self.M, self.NK = len(sj), len(sl)
        self.z = _f(sj, 'z_inv')
        self.bc = np.array([bool(r['bc']) for r in sj])
        self.max_depth = _f(sj, 'max_depth', np.inf)
        # nominal direction: downhill
        for r in sl:
            if self.z[r['sj_0']] + r['in_offset'] < self.z[r['sj_1']] + r['out_offset']:
                r['sj_0'], r['sj_1'] = r['sj_1'], r['sj_0']
                r['in_offset'], r['out_offset'] = r['out_offset'], r['in_offset']
                for p, q in (('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
                    if p in r and q in r:
                        r[p], r[q] = r[q], r[p]
        self.sl = sl
        self.Ju = np.array([r['sj_0'] for r in sl], int)
        self.Jd = np.array([r['sj_1'] for r in sl], int)
        self.zu = self.z[self.Ju] + _f(sl, 'in_offset')
        self.zd = self.z[self.Jd] + _f(sl, 'out_offset')
        self.dxu, self.dxd = _f(sl, 'dx_uk'), _f(sl, 'dx_dk')
        self.Cu, self.Cd = _f(sl, 'C_uk', 1 / 0.67 ** 2), _f(sl, 'C_dk', 1 / 0.67 ** 2)
        self.max_h = _f(sl, 'max_depth', np.inf)
        K = self.NK
        L = _f(sl, 'dx')
        self.slope = (self.zd - self.zu) / (L + self.dxu + self.dxd)
        internals = spec.get('internals')
        if internals is None:
            n = int(spec['kw']['internal_links'])
            internals = [dict(x=(L[k] / n * np.arange(n + 1))) for k in range(K)]
        self.nk = np.array([len(r['x']) - 1 for r in internals], int)
        self.k_i = np.repeat(np.arange(K), self.nk)
        self.k_I = np.repeat(np.arange(K), self.nk + 1)
        self.i1 = np.cumsum(self.nk) - self.nk           # first / last link
        self.iN = np.cumsum(self.nk) - 1
        self.I1 = self.i1 + np.arange(K)                 # first / last junction
        self.IN = self.iN + np.arange(K) + 1
        self.Iu = np.arange(self.nk.sum()) + self.k_i    # upstream junction of link
        self.first = np.zeros(len(self.k_i), bool); self.first[self.i1] = True
        self.last = np.zeros(len(self.k_i), bool); self.last[self.iN] = True
        self.set_x(np.concatenate([np.asarray(r['x'], float) for r in internals]))
        self.So = -self.slope[self.k_i]

        def per_I(name, col):
            return np.concatenate([np.asarray(r.get(name, np.full(self.nk[k] + 1, float(sl[k].get(col, 0.0)))), float)
                                   for k, r in enumerate(internals)])

        def per_i(name, col):
            return np.concatenate([np.asarray(r.get(name, np.full(self.nk[k], float(sl[k].get(col, 0.0)))), float)
                                   for k, r in enumerate(internals)])
        self.As = per_I('A_s', 'A_s')
        self.nrough = per_i('roughness', 'roughness')
        # properties of every single link: the superlink's, unless given link by link
        self.li = []
        for k, r in enumerate(internals):
            own = r.get('sections') or [{}] * self.nk[k]
            self.li += [{**sl[k], **s} for s in own]
        self.sections = any(r.get('sections') for r in internals)
        self.fm = np.array([r.get('friction_method', 'cm') for r in self.li])
        self.ctrl = np.array([bool(r['ctrl']) for r in self.li])
        self.Ac = _f(self.li, 'A_c')
        self.Cc = _f(self.li, 'C')
        self.tt = {k: transect_table(t) for k, t in spec['transects'].items()}
        self.g = np.array([[float(r.get('g%d' % i, 0.0)) for i in range(1, 8)] for r in sl])
        H0 = np.maximum(self.z + _f(sj, 'h_0'), self.z + min_depth)
        self.th = ((H0[self.Ju] >= self.zu).astype(float), (H0[self.Jd] >= self.zd).astype(float))

    def set_x(self, x):
        self.x_I = np.asarray(x, float)
        self.dx = self.x_I[self.Iu + 1] - self.x_I[self.Iu]
        self.z_I = (self.zu + self.slope * self.dxu)[self.k_I] + self.slope[self.k_I] * self.x_I

    # -- geometry of all links at depths y (len Nik) / of all ends (len NK)
    def links_geom(self, y):
        A = np.empty_like(y); B = np.empty_like(y); P = np.empty_like(y); R = np.empty_like(y)
        if self.sections:
            for i, r in enumerate(self.li):
                s = slice(i, i + 1)
                A[s], B[s], P[s], R[s] = section(r['shape'], y[s], self.gi(i), self.tt.get(r.get('transect')))
            return A, B, P, R
        for k, r in enumerate(self.sl):
            s = slice(self.i1[k], self.iN[k] + 1)
            A[s], B[s], P[s], R[s] = section(r['shape'], y[s], self.g[k], self.tt.get(r.get('transect')))
        return A, B, P, R

    def gi(self, i):
        return np.array([float(self.li[i].get('g%d' % q, 0.0)) for q in range(1, 8)])

    def ends_geom(self, y, at=None):
        """section of every superlink end: that of link at[k] (any link where sections do not vary)"""
        A = np.empty(self.NK); B = np.empty(self.NK)
        at = self.i1 if at is None else at
        for k in range(self.NK):
            r = self.li[at[k]]
            a, b, _, _ = section(r['shape'], y[k:k + 1], self.gi(at[k]), self.tt.get(r.get('transect')))
            A[k], B[k] = a[0], b[0]
        return A, B

    def storage_area(self, H):
        h = np.maximum(H - self.z, self.min_depth)
        out = np.empty(self.M)
        for j, r in enumerate(self.spec['sj']):
            if r.get('storage', 'functional') == 'functional':
                out[j] = r['a'] * h[j] ** r['b'] + r['c']
            else:
                t = self.spec['storages'][r['table']]
                out[j] = np.interp(h[j], t['h'], t['A'])
        return out

    def storage_volume(self, H):
        h = np.maximum(H - self.z, self.min_depth)
        out = np.empty(self.M)
        for j, r in enumerate(self.spec['sj']):
            if r.get('storage', 'functional') == 'functional':
                out[j] = r['a'] / (r['b'] + 1) * h[j] ** (r['b'] + 1) + r['c'] * h[j]
            else:
                t = self.spec['storages'][r['table']]
                hh, AA = np.asarray(t['h'], float), np.asarray(t['A'], float)
                V = np.concatenate([[0], np.cumsum(np.diff(hh) * (AA[1:] + AA[:-1]) / 2)])
                if h[j] >= hh[-1]:
                    out[j] = V[-1] + AA[-1] * (h[j] - hh[-1])
                else:
                    out[j] = np.interp(h[j], hh, V)     # documented: interpolated table
        return out

    # -- everything the step's coefficients are made of
    def coeffs(self, cur, theta=None):
        """cur: state the coefficients are evaluated at (dict of arrays)."""
        th_u, th_d = theta if theta is not None else self.th
        H, h, Q, Quk, Qdk = cur['H_j'], cur['h_Ik'], cur['Q_ik'], cur['Q_uk'], cur['Q_dk']
        c = {}
        y = (h[self.Iu] + h[self.Iu + 1]) / 2
        A, B, P, R = self.links_geom(y)
        yu = (h[self.I1] + th_u * (H[self.Ju] - self.zu)) / 2
        yd = (h[self.IN] + th_d * (H[self.Jd] - self.zd)) / 2
        Au, Bu = self.ends_geom(yu, self.i1)
        Ad, Bd = self.ends_geom(yd, self.iN)
        c.update(A=A, B=B, Pe=P, R=R, Au=Au, Bu=Bu, Ad=Ad, Bd=Bd, y=y, yu=yu, yd=yd)
        c['th_u'] = (H[self.Ju] >= self.zu).astype(float)
        c['th_d'] = (H[self.Jd] >= self.zd).astype(float)
        with np.errstate(all='ignore'):
            u = np.where(A > 0, Q / np.where(A > 0, A, 1), 0.0)
        uI = u.copy(); uE = u.copy()
        # velocity at an interior junction, interpolated between the links on its two sides
        a = np.flatnonzero(~self.last)                    # link with a downstream neighbour
        D = self.dx
        v = (D[a] * u[a + 1] + D[a + 1] * u[a]) / (D[a] + D[a + 1])
        uE[a] = v; uI[a + 1] = v
        sig = np.ones_like(A)
        if self.damp:
            with np.errstate(all='ignore'):
                Fr = np.abs(u) * np.sqrt(B) / np.sqrt(G * A)
            Fr = np.where(A > 0, Fr, 0.0)
            sig = np.clip(2 * (1 - Fr), 0, 1)
        c.update(u=u, uI=uI, uE=uE, sig=sig)
        absQ = np.abs(Q)
        with np.errstate(all='ignore'):
            cm = G * self.nrough ** 2 * absQ * self.dx / A / R ** (4 / 3)
            hw = 1.354 * G * absQ ** 0.85 * self.dx / A ** 0.85 / self.nrough ** 1.85 / R ** 1.1655
            Re = absQ / A * 4 * R / 1.0034e-6
            ff = 0.25 / np.log10(self.nrough / (3.7 * 4 * R) + 5.74 / Re ** 0.9) ** 2
            dw = 0.01274 * G * ff * absQ * self.dx / A / R
        fr = np.where(self.fm == 'cm', cm, np.where(self.fm == 'hw', hw, np.where(absQ > 0, dw, 0.0)))
        fr = np.where(A > 0, fr, 0.0)
        c['fric'] = fr
        with np.errstate(all='ignore'):
            c['cterm'] = np.where(self.ctrl, self.Cc * A * absQ / np.where(self.ctrl, self.Ac, 1) ** 2, 0.0)
        c['Asj'] = self.storage_area(H)
        return c

    def residuals(self, old, cur, new, inp, dt, theta=None):
        """Residuals (and scales) of every balance equation over one step."""
        c = self.coeffs(cur, theta)
        out = {}
        h, Q, Quk, Qdk, H = new['h_Ik'], new['Q_ik'], new['Q_uk'], new['Q_dk'], new['H_j']
        ho, Ho, Qo = old['h_Ik'], old['H_j'], old['Q_ik']
        Iu, I1, IN = self.Iu, self.I1, self.IN
        # --- continuity at internal junctions
        Q0 = np.asarray(inp['Q_0Ik'], float) if inp.get('Q_0Ik') is not None else np.zeros(len(h))
        BL = c['B'] * self.dx / 2
        store = np.zeros(len(h))
        np.add.at(store, Iu, BL); np.add.at(store, Iu + 1, BL)
        store[I1] += c['Bu'] * self.dxu / 2
        store[IN] += c['Bd'] * self.dxd / 2
        store += self.As
        inflow = np.zeros(len(h)); outflow = np.zeros(len(h))
        outflow[Iu] = Q; inflow[Iu + 1] = Q
        inflow[I1] = Quk; outflow[IN] = Qdk
        dh = h - ho
        res = inflow + Q0 - outflow - store * dh / dt
        scale = np.abs(inflow) + np.abs(outflow) + np.abs(Q0) + store / dt * (np.abs(h) + np.abs(ho)) * 1e-3 + 1e-6
        out['cont'] = (res, scale)
        # --- momentum of links
        Qm = np.empty_like(Q); Qp = np.empty_like(Q)
        Qm[1:] = Q[:-1]; Qm[self.i1] = Quk
        Qp[:-1] = Q[1:]; Qp[self.iN] = Qdk
        a = -np.maximum(c['uI'], 0) * c['sig']
        cc = -np.maximum(-c['uE'], 0) * c['sig']
        b = self.dx / dt * c['sig'] + c['fric'] + c['cterm'] - a - cc
        t = [a * Qm, b * Q, cc * Qp, -Qo * self.dx / dt * c['sig'],
             -G * c['A'] * self.So * self.dx, -G * c['A'] * h[Iu], G * c['A'] * h[Iu + 1]]
        out['mom'] = (sum(t), sum(np.abs(x) for x in t) + 1e-9)
        # --- end heads
        with np.errstate(all='ignore'):
            ku = np.where(c['Au'] > 0, -self.Cu * np.abs(cur['Q_uk']) / (2 * G * c['Au'] ** 2), 0.0)
            kd = np.where(c['Ad'] > 0, self.Cd * np.abs(cur['Q_dk']) / (2 * G * c['Ad'] ** 2), 0.0)
        pu = c['th_u'] * (H[self.Ju] - self.zu); pd_ = c['th_d'] * (H[self.Jd] - self.zd)
        out['uk'] = (h[I1] - ku * Quk - pu, np.abs(h[I1]) + np.abs(ku * Quk) + np.abs(pu) + 1e-6)
        out['dk'] = (h[IN] - kd * Qdk - pd_, np.abs(h[IN]) + np.abs(kd * Qdk) + np.abs(pd_) + 1e-6)
        out['uk_raw'] = pu + ku * Quk
        out['dk_raw'] = pd_ + kd * Qdk
        # --- superjunction balance, controls left out (returned as the implied exchange)
        xi_u = self.dxu * c['Bu'] * c['th_u'] / 2 / dt
        xi_d = self.dxd * c['Bd'] * c['th_d'] / 2 / dt
        st = c['Asj'] / dt
        np.add.at(st, self.Ju, xi_u); np.add.at(st, self.Jd, xi_d)
        Qin = np.asarray(inp['Q_in'], float) if inp.get('Q_in') is not None else np.zeros(self.M)
        qi = np.zeros(self.M); np.add.at(qi, self.Jd, Qdk)
        qo = np.zeros(self.M); np.add.at(qo, self.Ju, Quk)
        res = Qin + qi - qo - st * (H - Ho)
        s = np.abs(Qin) + st * (np.abs(H - Ho)) + 1e-6
        np.add.at(s, self.Jd, np.abs(Qdk)); np.add.at(s, self.Ju, np.abs(Quk))
        # head round-off: storage/dt * eps * |H|
        s = s + st * 1e-7 * (np.abs(H) + 1)
        out['mass'] = (res, s)
        out['coef'] = c
        # sections this shallow are dominated by cancellation in either implementation
        out['thin_i'] = c['y'] < 1e-4
        out['thin_uk'] = c['yu'] < 1e-3
        out['thin_dk'] = c['yd'] < 1e-3
        return out

    def masks(self, old, new, out, H_bc=None, tol=1e-9):
        """(junction ok, superlink ok): no clamp was active."""
        md = self.min_depth
        H = new['H_j']
        jok = (H > self.z + md * 1e-3) & (H < self.z + self.max_depth - 1e-9)
        h = new['h_Ik']
        inner = (h > md * (1 + 1e-6)) & (h < (self.max_h - 1e-9)[self.k_I])
        kok = np.ones(self.NK, bool)
        np.logical_and.at(kok, self.k_I, inner)
        kok &= jok[self.Ju] & jok[self.Jd]
        return jok, kok

    def advance(self, out):
        self.th = (out['coef']['th_u'], out['coef']['th_d'])


STATE = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p')


def snap(model):
    return {k: np.array(getattr(model, k), dtype=float, copy=True) for k in STATE
            if getattr(model, k, None) is not None}
