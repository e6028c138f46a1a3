#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/bugs.py and confirm each bug in a scratch copy.

usage: mkbugs.py [id ...]     (run by hand; no check reads /verif/seeded)
"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS, HEADER

OUT = os.path.join(os.path.dirname(HERE), 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def stable_ok(repo):
    """Run the repository's tests from the scratch copy."""
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'python_files=tests.py',
            '--doctest-modules', '--ignore=md_toc/tests/fuzzer.py', '--ignore=md_toc/tests/benchmark.py',
            'md_toc'], cwd=repo, env=env)
    return r.returncode == 0, r.stdout[-1500:]


def main():
    want = sys.argv[1:]
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='seed')
        repo = os.path.join(d, 'repo')
        sh(['cp', '-a', '/repo', repo])
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT matches', s.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        diff = sh(['git', 'diff'], cwd=repo).stdout
        # removed lines must be original ones
        bl = {}
        for f in {e[0] for e in b['edits']}:
            lines = sh(['git', 'blame', '-s', 'HEAD', '--', f], cwd=repo).stdout.splitlines()
            bl[f] = lines
        cur = None; ln = 0; touched_new = []; removed = 0
        import re
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('@@'):
                ln = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                removed += 1
                if not bl[cur][ln - 1].startswith('^'): touched_new.append((cur, ln))
                ln += 1
            elif not l.startswith('+') and not l.startswith('\\') and not l.startswith('diff') and not l.startswith('index'):
                ln += 1
        o = os.path.join(OUT, b['id']); os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run with cwd /repo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(HEADER + b['demo'].strip('\n') + '\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        open(os.path.join(o, 'meta.json'), 'a').write('\n')
        tests, log = stable_ok(repo)
        r1 = sh(['sh', os.path.join(o, 'demo.sh')], cwd=repo)
        r0 = sh(['sh', os.path.join(o, 'demo.sh')], cwd='/repo')
        verdict = 'OK' if tests and r1.returncode != 0 and r0.returncode == 0 and not touched_new and removed else 'BAD'
        print(b['id'], verdict, 'tests', tests, 'patched', r1.returncode, 'clean', r0.returncode,
              'touches-new', touched_new, 'removed', removed)
        if not tests: print(log)
        if r0.returncode: print(r0.stderr[-800:])
        if verdict == 'OK': print('   ', (r1.stderr.strip().splitlines() or [''])[-1][:200])
        shutil.rmtree(d)


main()
