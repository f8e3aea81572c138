"""Comparing two runs that must agree up to rounding.

A difference between mathematically equal formulations may be amplified by the solver's own
switches (a head exactly at a crest, a clamp).  The allowance is therefore measured: the base
run is repeated with its inflow perturbed in the last digits, and its deviation sets the scale."""
import copy
import numpy as np
from vlib import nets, oracle

FIELDS = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'Q_o', 'Q_w', 'Q_p')


def drive(m, steps, record=FIELDS, after=None, **extra):
    out = []
    for e in steps:
        m.step(**nets.step_kwargs(e), **extra)
        out.append({f: np.array(getattr(m, f), float, copy=True) for f in record if getattr(m, f, None) is not None})
    return out


def jitter(spec, eps=1e-12):
    """The same network with elevations, depths and lengths changed in the last digits."""
    rng = np.random.default_rng(12345)
    s = copy.deepcopy(spec)
    for r in s['sj']:
        r['z_inv'] += eps * (1 + abs(r['z_inv'])) * rng.normal()
        r['h_0'] *= 1 + eps * rng.normal()
    for r in s['sl']:
        r['h_0'] *= 1 + eps * rng.normal()
        r['in_offset'] *= 1 + eps * rng.normal()
        r['roughness'] *= 1 + eps * rng.normal()
    return s


def perturbed(steps, eps=1e-11):
    out = []
    for e in steps:
        e = dict(e)
        if e.get('Q_in') is not None:
            e['Q_in'] = [v * (1 + eps) + 1e-13 for v in e['Q_in']]
        if e.get('H_bc') is not None:
            e['H_bc'] = [v + 1e-12 for v in e['H_bc']]
        out.append(e)
    return out


def compare(r, key, base, other, mapping, pert, what, tol=1e-8, atol=1e-8, factor=1e3, fields=None, **details):
    """mapping(state) -> state in the base's layout.  Stops (without verdict) once the
    perturbed base run has drifted too far to be informative."""
    n = 0
    for s, (a, b, p) in enumerate(zip(base, other, pert)):
        b = mapping(b)
        for f in (fields or a):
            x, y, z = a[f], b[f], p[f]
            if x.shape != y.shape:
                r.violate(key, '%s: %s has shape %s instead of %s' % (what, f, y.shape, x.shape), step=s, **details)
            sc = 1.0 + np.abs(x).max(initial=0)
            drift = np.abs(x - z).max(initial=0)
            if not np.isfinite(x).all() or drift > 1e-6 * sc:
                return n
            allow = (tol * sc + atol) * 1.0 + factor * drift
            d = np.abs(x - y)
            n += x.size
            r.count(key, x.size)
            if x.size:
                r.peak(key, d.max() / sc)
            if not (d <= allow).all():
                j = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                r.violate(key, '%s: %s[%d] differs' % (what, f, j), step=s, base=x.ravel()[j], other=y.ravel()[j],
                          allowance=allow, **details)
    return n


def ident(s):
    return s
