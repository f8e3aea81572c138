#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per check module; properties without one go to not_applicable."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ('Random and hostile executions of the real compiled code; judged against an independent reference written from the '
       'governing equations. Assurance is that of the explored executions; the reference and tolerances are trusted.')
T = {
 'C01': ('online monitor: per-step water balance of every junction and of the network', REF),
 'C02': ('online monitor: per-step continuity residual of every internal junction', REF),
 'C03': ('online monitor: per-step momentum residual of every internal link', REF),
 'C04': ('online monitor: per-step residual of the end-head relation of every superlink', REF),
 'C05': ('online monitor: bounds, pinning and finiteness under hostile forcing', 'Bounds asserted on every state of hostile executions; no reference model needed.'),
 'C06': ('online monitor: still water stays still', 'Lake-at-rest states evolved by the real code; tolerance covers round-off and the model\'s own regularisation of controls.'),
 'C07': ('paired-run monitor: datum, relabelling, union and reversal', 'Two executions of the real code compared; the allowance is measured by a perturbed third run.'),
 'C08': ('paired-run monitor: alternative solution routes', 'Two executions of the real code compared; the allowance is measured by a perturbed third run.'),
 'C09': ('online monitor: sections seen by the solver against geometric reference', REF),
 'C10': ('online monitor: storage area and volume against reference relations', REF),
 'C11': ('online monitor: orifice discharge against the orifice equation', REF),
 'C12': ('online monitor: weir discharge against the weir equation', REF),
 'C13': ('online monitor: pump discharge against the pump curve', REF),
 'C14': ('history monitor: save, excursion, load, replay', 'Histories of the real code compared with each other, bit for bit where the same operations are repeated.'),
 'C15': ('history monitor: caller inputs fingerprinted, interleaved instances compared with isolated ones', 'Exact comparison of inputs and of trajectories.'),
 'C16': ('history monitor: clock and iteration bookkeeping', 'Exact bookkeeping oracle over random histories of calls.'),
 'C17': ('offline checker over the recorded calls into the model', 'The inputs the simulation hands to the model are recorded and judged against independently interpolated series.'),
 'C18': ('offline checker over recorded results and observed states', 'Recorded tables compared with the states observed when they were recorded.'),
 'C19': ('offline checker over the trace of trial steps; step-size oracle', 'Trial steps recorded at the model boundary; error and step sizes recomputed.'),
 'C20': ('online monitor: state-space residual and Kalman reference', 'Dense linear-algebra reference of the standard filter.'),
 'C21': ('online monitor: infiltration balance, bounds and Green-Ampt reference', REF),
 'C22': ('online monitor: per-step constituent balance of every element, budget, extremes, uniformity; linearity and decay as paired runs', REF),
 'C23': ('online monitor: a shadow of every movable junction kept from observed heads; balances on its spacing', REF),
 'C24': ('sanitized execution (bounds checks in every kernel, poisoned fresh memory) and compiled-versus-interpreted twin', 'Bounds checking compiled into every kernel; the twin is a second import of the same sources with compilation off. Assurance is that of the explored executions.'),
 'C25': ('online monitor: discretisation, attribution and starting state against the declared tables', REF),
 'C26': ('online monitor: Kalman reference around a transport sensitivity measured on a second constituent', REF),
 'C27': ('differential monitor of the documented coupling on the shipped models (every component against its stand-alone twin) with an online reference of the water received', REF),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = {os.path.basename(p)[:-3].upper() for p in glob.glob(V + '/checks/c[0-9]*.py')}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='runtime monitoring: ' + T[i][0], level='exploration', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason='runtime monitoring applies; its check is not built yet'))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
               notes='run.py re-executes under /opt/venv/bin/python with a fresh numba cache, so kernels are compiled from /repo\'s current tree on every run. No hooks in /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
