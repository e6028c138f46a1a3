#!/usr/bin/env python3
"""Run checks against planted bugs or other patches (by hand), in scratch copies of /repo and /verif.
usage: runbugs.py [--all] [-p C01,C02] [-j workers] [--dir seeded] [id ...]
Default: each bug against its own property's quick check; --all: against every check."""
import argparse, json, os, shutil, subprocess, sys, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--all', action='store_true')
ap.add_argument('-p', default=None)
ap.add_argument('-j', type=int, default=4)
ap.add_argument('--nproc', type=int, default=2)
ap.add_argument('--dir', default=V + '/seeded')
ap.add_argument('--patches', action='store_true', help='--dir holds *.diff files')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
ALL = sorted(f[:-3] for f in os.listdir(V + '/props') if f[0] == 'C' and f.endswith('.py'))
if a.patches:
    ids = a.ids or sorted(f[:-5] for f in os.listdir(a.dir) if f.endswith('.diff'))
else:
    ids = a.ids or sorted(os.listdir(a.dir))
Q = queue.Queue()
for i in ids:
    if a.patches:
        patch, prop = a.dir + '/' + i + '.diff', i[:3] if i[:3] in ALL else None  # C01_name.diff: check C01
    else:
        patch, prop = a.dir + '/' + i + '/patch.diff', json.load(open(a.dir + '/' + i + '/meta.json'))['property']
    Q.put((i, patch, a.p.split(',') if a.p else ALL if a.all or prop is None else [prop]))
base = '/tmp/runbugs.%d' % os.getpid()
lock = threading.Lock()
res = {}


def work(w):
    d = '%s/%d' % (base, w)
    os.makedirs(d)
    shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    while True:
        try:
            i, patch, props = Q.get_nowait()
        except queue.Empty:
            return
        subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', patch], capture_output=True, text=True)
        if r.returncode:
            print(i, 'DOES NOT APPLY', flush=True)
            continue
        for p in props:
            t = time.time()
            try:
                r = subprocess.run(['python3-vt', 'symex/run.py', p, '--nproc', str(a.nproc)], cwd=d + '/verif', capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', SYMEX_REPO=d + '/repo', PYTHONDONTWRITEBYTECODE='1'))
                out = r.stdout + r.stderr
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                st = 'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'ERROR%d' % r.returncode
                if r.returncode == 0 and 'NOT exhaustive' in out:
                    st = 'quiet-incomplete'
            except subprocess.TimeoutExpired:
                st, out = 'TIMEOUT', ''
            with lock:
                res.setdefault(i, {})[p] = st
                print(i, p, st, '%.0fs' % (time.time() - t), flush=True)
                if st.startswith('ERR'):
                    print(out[-800:], flush=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(a.j)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(base)
print('---')
for i in sorted(res):
    print(i, ' '.join('%s' % p for p in sorted(res[i]) if res[i][p] == 'CAUGHT') or 'NOT CAUGHT')
