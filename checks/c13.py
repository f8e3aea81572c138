"""Reported pump flows against the pump equation, and the exchange they imply in the balance of their junctions."""
from vlib import controls

PROP = 'C13'
N = {'quick': 500, 'thorough': 16000}
NEED = ['reported', 'exchange', 'no_flow', 'direction'] + {'o': ['submerged', 'free', 'partial', 'dry', 'closed', 'flap', 'limited'],
        'w': ['submerged', 'free', 'dry'], 'p': ['curve', 'low', 'high', 'dry', 'off', 'shutoff']}['p']
RULE = ('random networks with pumps (alone or with other controls), run through forcing with changing settings, or '
        'posed at heads around the pumps\' levels; every pump after every step is one evaluation; behaviours are '
        '(source, regime, direction, shape or curve, orientation, flap)')
ASSUME = ['heads within 1e-9 m of a regime switch are skipped']


def case(r, i, rng, tier):
    controls.case_for('p', r, i, rng)
