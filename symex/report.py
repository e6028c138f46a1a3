"""Verdict, evidence file, replay file."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_file():
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'known': [], 'fixed': []}


def evidence(a, d):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
        f.write('\n')


def import_failure(a, text, t0):
    """the code under test cannot even be imported by the engine"""
    print(text)
    print('INCONCLUSIVE property=%s: the code could not be loaded' % a.prop)
    evidence(a, dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking',
                     coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=False,
                                   error=text[-2000:]), wall_s=round(time.time() - t0, 2), violations=0))
    return 3


def report(a, mod, jobs, state, encoded, t0):
    tot = {}
    samples, notes, known, viol, mism, unrep, errs = [], set(), {}, [], [], [], []
    perjob = []
    complete = True
    crash = []
    for i, j in enumerate(jobs):
        s = state[i]
        for k, v in s['stats'].items():
            tot[k] = tot.get(k, 0) + v
        samples += s['samples'][:1]
        notes |= s['notes']
        for k, v in s['known'].items():
            known.setdefault(k, v)
        viol += s['violations']
        mism += [dict(job=j['name'], **m) for m in s['mism']]
        unrep += [dict(job=j['name'], **m) for m in s['unrep']]
        errs += [(j['name'],) + tuple(e) for e in s['errors']]
        crash += s['crash']
        complete &= s['complete']
        t = (s['t1'] or 0) - (s['t0'] or 0)
        perjob.append(dict(job=j['name'], paths=s['stats']['paths'], complete=s['complete'], left=s['left'],
                           checked_paths=s['stats']['checked_paths'], queries=s['stats']['queries'], wall=round(t, 2)))
        if a.v:
            print('%7d paths %6.1fs left=%d %s' % (s['stats']['paths'], t, s['left'], j['name']))
    vacuous = [x['job'] for x in perjob if x['complete'] and x['checked_paths'] == 0]
    if vacuous and not viol:
        print('WARNING: harness reached no assertion:', vacuous[:3])
        complete = False
    wall = time.time() - t0
    exhaustive = bool(complete and not mism and not unrep and not errs and not crash and not tot.get('unknown')
                      and not tot.get('hang') and not tot.get('engine_errors'))
    kf = known_file()
    listed = {k['id']: k for k in kf.get('known', []) if k['property'] == a.prop}
    step = max(1, len(samples) // 12)
    cov = dict(
        states=tot.get('paths', 0), transitions=tot.get('decisions', 0) + tot.get('paths', 0),
        traces_validated_against_impl=tot.get('validated', 0), samples=samples[::step][:12],
        exhaustive=exhaustive,
        engine='symbolic execution of the instrumented source, z3 %s' % __import__('z3').get_version_string(),
        modules_encoded={n: dict(file=f, functions=k, sha256_16=h) for n, (f, k, h) in sorted(encoded.items())
                         if not n.startswith('props')},
        bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
        paths_reaching_assertions=tot.get('checked_paths', 0),
        branch_decisions=tot.get('decisions', 0), forks=tot.get('forks', 0),
        solver_queries=tot.get('queries', 0), solver_seconds=round(tot.get('solver_s', 0.0), 2),
        solver_unknown=tot.get('unknown', 0), assertions_evaluated=tot.get('checks', 0),
        assertions_needing_solver=tot.get('asserts', 0), path_conditions_sat=tot.get('leaf_sat', 0),
        infeasible_or_assumed_away=tot.get('aborted', 0), encoding_mismatches=tot.get('mismatch', 0),
        unreproduced_counterexamples=tot.get('unreproduced', 0), hang_paths=tot.get('hang', 0),
        engine_errors=tot.get('engine_errors', 0), concretisations=sorted(notes)[:20],
        jobs=len(jobs), jobs_complete=sum(x['complete'] for x in perjob), per_job=perjob[:400],
        known_findings_seen=sorted(k for k in known if k in listed),
        encoding_mismatch_examples=mism[:3], unreproduced_examples=unrep[:3], engine_error_examples=[str(e)[:1500] for e in errs[:3]],
    )
    rc = 0
    new = list(viol)
    for kid, v in sorted(known.items()):
        if kid in listed:
            print('KNOWN-FINDING: property=%s %s: %s; e.g. %s' % (a.prop, kid, listed[kid]['what'], json.dumps(v['inputs'])[:300]))
        else:
            new.append(dict(v, msg=v['msg'] + ' [unlisted finding %s]' % kid, obs=None))
    if new:
        v = new[0]
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, a.prop + '.json')
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('counterexample: %s' % v['msg'])
        print('inputs: ' + json.dumps(v.get('inputs'), ensure_ascii=True)[:3000])
        print('observed: ' + json.dumps(v.get('obs'), ensure_ascii=True)[:3000])
        print('replay with: /opt/venv/bin/python %s/symex/replay.py %s' % (HERE, p))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        rc = 1
    for u in unrep[:3]:
        print('UNREPRODUCED counterexample (not reported as a violation): ' + json.dumps(u)[:1500])
    for m in mism[:3]:
        print('ENCODING MISMATCH: ' + json.dumps(m)[:1500])
    for e in errs[:3]:
        print('ENGINE: ' + str(e)[:2500])
    for e in crash[:2]:
        print('WORKER: ' + e[-1500:])
    evidence(a, dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking', coverage=cov,
                     assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                         'symbolic characters range over the stated finite alphabets',
                         'file system, streams and digests are modelled by symex/fs.py and symex/sym.py; replays use the real ones'],
                     wall_s=round(wall, 2), violations=len(new)))
    print('%s %s: %d paths, %d decisions, %d solver queries (%.1fs), %d validated on the real code, %s, %.1fs' % (
        a.prop, a.tier, tot.get('paths', 0), tot.get('decisions', 0), tot.get('queries', 0), tot.get('solver_s', 0.0),
        tot.get('validated', 0), 'complete within bounds' if exhaustive else 'NOT exhaustive', wall))
    return rc
