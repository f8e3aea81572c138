#!/usr/bin/env python3
"""python3 run.py C01 [quick|thorough] [--replay FILE] [--case N] [--seed N]"""
import os, sys, json, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    i = 1
    while i < len(a):
        if a[i] in ('quick', 'thorough'):
            tier = a[i]
        elif a[i] == '--replay':
            i += 1
            d = json.load(open(a[i]))
            tier, seed, only = d['tier'], d['seed'], [d['case']]
        elif a[i] == '--case':
            i += 1
            only = [int(v) for v in a[i].split(',')]
        elif a[i] == '--seed':
            i += 1
            seed = int(a[i])
        i += 1
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    from vlib import boot
    mod_env = dict(line.split('=', 1) for line in _env(prop))
    jit = mod_env.get('NUMBA_DISABLE_JIT') != '1'
    boot.reexec(mod_env)
    from vlib import core
    try:
        boot.load(jit=jit)
    except AssertionError:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE: the package does not import: %r' % e)
        sys.exit(2)
    mod = importlib.import_module('checks.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    sys.exit(core.run(mod, tier, seed, only))


def _env(prop):
    """Environment lines declared at the top of the check module as '#ENV A=B'."""
    with open(os.path.join(HERE, 'checks', prop.lower() + '.py')) as f:
        return [l[5:].strip() for l in f if l.startswith('#ENV ')]


if __name__ == '__main__':
    main()
