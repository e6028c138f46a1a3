"""Entry point: python3-vt symex/run.py <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', default=None, help='only jobs whose name contains this')
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--nproc', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from symex import explore, instrument, report
    broken = None
    try:
        explore.setup()
        mod = importlib.import_module('props.' + a.prop)
    except Exception:
        import traceback
        broken = traceback.format_exc()
    if broken:
        return report.import_failure(a, broken, t0)
    jobs = []
    for j in mod.JOBS(a.tier):
        j = dict(j)
        j.setdefault('module', a.prop)
        j.setdefault('name', j['fn'] + '(' + ','.join('%s=%r' % kv for kv in j['params'].items()) + ')')
        if a.jobs and a.jobs not in j['name']:
            continue
        jobs.append(j)
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(a.tier) or (240 if a.tier == 'quick' else 3000)
    state = explore.run_jobs(jobs, t0 + budget, nproc=a.nproc, seed=a.seed)
    return report.report(a, mod, jobs, state, instrument.ENCODED, t0)


if __name__ == '__main__':
    sys.exit(main())
