"""writes MANIFEST.json from the harness modules (run by hand)"""
import json, os, re, sys, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    src = open('%s/props/%s.py' % (HERE, i)).read()
    env = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('BOUNDS', 'OUTSIDE'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(
        property=i, quick_cmd='python3-vt symex/run.py %s --tier quick' % i, thorough_cmd='python3-vt symex/run.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='bounded symbolic execution of the real Python source, path conditions and assertions decided by z3, counterexamples replayed on the unmodified code',
        level='model_checking',
        level_note='Holds for every value within the bounds: %s. Not covered: %s. Trusted: the engine in symex/ (sampled paths are replayed on the '
                   'real code and compared), z3, and the reference in props/ref.py where the property has one.' % (env['BOUNDS'], env['OUTSIDE'])))
m = dict(version=1, setup_cmd='python3-vt symex/selftest.py', checks=checks, not_applicable=[],
         notes='No hooks: the checks instrument the source text of /repo in memory on every run. The fix: commits in /repo are listed in known_findings.json.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
