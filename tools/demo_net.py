"""Small networks for the demonstrations."""
import os, sys, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, os.getcwd())
import numpy as np, pandas as pd
np.seterr(all='ignore')
from pipedream_solver.nsuperlink import nSuperLink


def sj(rows):
    base = dict(z_inv=0.0, h_0=1.0, bc=False, storage='functional', a=0.0, b=0.0, c=50.0, max_depth=float('inf'), map_x=0.0, map_y=0.0)
    t = pd.DataFrame([dict(base, id=i, name='J%d' % i, **r) for i, r in enumerate(dict(r) for r in rows)]) if not any(set(r) & set(base) for r in rows) \
        else pd.DataFrame([{**base, 'id': i, 'name': 'J%d' % i, **r} for i, r in enumerate(rows)])
    return t


def sl(rows):
    base = dict(in_offset=0.0, out_offset=0.0, dx=200.0, shape='rect_open', g1=6.0, g2=2.0, g3=0.0, g4=0.0, g5=0.0, g6=0.0, g7=0.0,
                roughness=0.02, friction_method='cm', Q_0=0.0, h_0=1.0, A_s=0.0, ctrl=False, A_c=0.0, C=0.0, transect='')
    return pd.DataFrame([{**base, 'id': i, 'name': 'K%d' % i, **r} for i, r in enumerate(rows)])


def controls(rows):
    return pd.DataFrame([{'id': i, **r} for i, r in enumerate(rows)])


def model(links, juncs, internal_links=4, **kw):
    return nSuperLink(sl(links), sj(juncs), internal_links=internal_links, **kw)


def expect(ok, msg):
    if not ok:
        print('FAILED:', msg)
        sys.exit(1)
