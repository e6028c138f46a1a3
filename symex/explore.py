"""Path exploration: depth first re-execution over decision prefixes, spread
over worker processes."""
import collections
import copy
import functools
import importlib
import itertools
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import time
import traceback
import types

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMEX_REPO', '/repo')
PY = '/opt/venv/bin/python'
REPLAY_TIMEOUT = 10


def site_packages():
    import glob
    for p in glob.glob('/opt/venv/lib/python3*/site-packages'):
        if os.path.isdir(os.path.join(p, 'fpyutils')):
            return p
    raise SystemExit('fpyutils not found')


def setup():
    """import the code under test, instrumented"""
    sys.dont_write_bytecode = True
    from . import instrument, fs, rt
    instrument.install({'md_toc': REPO, 'fpyutils': site_packages(), 'props': HERE})
    fs.install()
    rt.HANDLERS[traceback.print_exc] = lambda *a, **k: sys.stderr.write('Traceback')
    import md_toc.api      # noqa
    import md_toc.cli      # noqa
    import md_toc.__main__  # noqa


# ------------------------------------------------------------ state guard

CONTAINERS = (dict, list, set, collections.defaultdict, collections.OrderedDict, collections.Counter,
              collections.deque)


class Guard:
    """restores module level state of the instrumented modules per path"""
    BIG = 600

    def __init__(self):
        from . import rt
        self.mods = []
        self.conts = []
        self.classes = []
        self.lru = []
        self.counts = []
        seen = set()
        for n, m in list(sys.modules.items()):
            if isinstance(m, types.ModuleType) and rt.MARK in m.__dict__:
                d = m.__dict__
                self.mods.append((d, dict(d)))
                for k, v in list(d.items()):
                    if type(v) is itertools.count:
                        self.counts.append((d, k, copy.copy(v)))
                    self._walk(v, seen, n)

    def _walk(self, v, seen, mod, depth=0):
        if id(v) in seen or depth > 12:
            return
        t = type(v)
        if t in CONTAINERS:
            seen.add(id(v))
            if len(v) > self.BIG:
                return
            self.conts.append((v, (dict if isinstance(v, dict) else set if t is set else list)(v)))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self._walk(x, seen, mod, depth + 1)
        elif t is types.FunctionType:
            seen.add(id(v))
            if v.__globals__.get('__name__', '').split('.')[0] in ('md_toc', 'fpyutils'):
                for x in (v.__defaults__ or ()):
                    self._walk(x, seen, mod, depth + 1)
                for x in (v.__kwdefaults__ or {}).values():
                    self._walk(x, seen, mod, depth + 1)
                if v.__dict__:
                    self.conts.append((v.__dict__, dict(v.__dict__)))
                for c in (v.__closure__ or ()):
                    try:
                        self._walk(c.cell_contents, seen, mod, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(v, type) and v.__module__.split('.')[0] in ('md_toc', 'fpyutils'):
            seen.add(id(v))
            self.classes.append((v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._walk(x, seen, mod, depth + 1)
        elif t is functools._lru_cache_wrapper:
            seen.add(id(v))
            self.lru.append(v)
            self._walk(v.__wrapped__, seen, mod, depth + 1)
        elif t in (classmethod, staticmethod, functools.partial):
            seen.add(id(v))
            self._walk(v.func if t is functools.partial else v.__func__, seen, mod, depth + 1)
            if t is functools.partial:
                self._walk(v.keywords, seen, mod, depth + 1)
                for x in v.args:
                    self._walk(x, seen, mod, depth + 1)
        elif t is tuple:
            seen.add(id(v))
            for x in v:
                self._walk(x, seen, mod, depth + 1)
        elif t.__module__.split('.')[0] in ('md_toc', 'fpyutils') and hasattr(v, '__dict__'):
            seen.add(id(v))
            self.conts.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._walk(x, seen, mod, depth + 1)

    def restore(self):
        for d, snap in self.mods:
            if len(d) != len(snap) or any(d.get(k, snap) is not v for k, v in snap.items()):
                for k in list(d):
                    if k not in snap:
                        del d[k]
                d.update(snap)
        for f in self.lru:
            f.cache_clear()
        for d, k, v in self.counts:
            d[k] = copy.copy(v)
        for c, snap in self.classes:
            d = c.__dict__
            if len(d) != len(snap) or any(d.get(k, snap) is not v for k, v in snap.items()):
                for k in list(d):
                    if k not in snap:
                        delattr(c, k)
                for k, v in snap.items():
                    if d.get(k, snap) is not v:
                        setattr(c, k, v)
        for c, snap in self.conts:
            t = type(c)
            if isinstance(c, dict):
                if len(c) != len(snap) or any(a is not b for a, b in zip(c.values(), snap.values())) \
                        or any(a is not b for a, b in zip(c, snap)):
                    c.clear()
                    c.update(snap)
            elif t is not set:
                if len(c) != len(snap) or any(a is not b for a, b in zip(c, snap)):
                    c.clear()
                    c.extend(snap)
            elif len(c) != len(snap) or c != snap:
                c.clear()
                c.update(snap)


# ------------------------------------------------------------ replay

class Replayer:
    def __init__(self):
        self.p = None

    def run(self, req, timeout=None):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ)
            env['PYTHONHASHSEED'] = '0'
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            env.pop('PYTHONPATH', None)
            env['PYTHONUTF8'] = '1'
            self.p = subprocess.Popen([PY, os.path.join(HERE, 'symex', 'concrete.py')], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        req = dict(req)
        req['timeout'] = timeout or REPLAY_TIMEOUT
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        if not line:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'error': 'replay process died', 'failed': None, 'obs': [], 'inputs': {}}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
            self.p = None


def new_stats():
    return dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0.0, unknown=0, checks=0, asserts=0, aborted=0,
                leaf_sat=0, validated=0, mismatch=0, unreproduced=0, hang=0, checked_paths=0, engine_errors=0)


class Runner:
    """explores one job inside one process"""

    def __init__(self):
        from . import core
        self.core = core
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.guard = Guard()
        self.rep = Replayer()
        self.nq = 0

    def run_path(self, job, prefix, stats, deadline):
        from . import core, fs, rt, ctx as ctxm
        p = core.Path(prefix, self.solver, stats, deadline)
        p.maxticks = job.get('maxticks', 600000)
        core.set_path(p)
        core.NOFORK = 0
        rt.reset()
        fs.reset()
        self.guard.restore()
        c = ctxm.SymCtx(p)
        sv = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
        sys.stdout, sys.stderr = fs.SymOut(), fs.SymOut()
        sys.stdin = fs.SymFile('<stdin>', 'r', None, (), seekable=False, name='<stdin>')
        mod = sys.modules['props.' + job['module']]
        status = 'ok'
        detail = None
        try:
            getattr(mod, job['fn'])(c, **job['params'])
        except core.PathAbort:
            status = 'abort'
        except core.Budget:
            status = 'budget'
        except core.Hang:
            status = 'hang'
        except core.CrashPoint:
            status = 'abort'
        except ctxm.Violation as v:
            status = 'violation'
            detail = (v.msg, v.model)
        except RecursionError:
            status = 'engine'
            detail = 'RecursionError'
        except Exception:
            status = 'engine'
            detail = traceback.format_exc()
        finally:
            sys.stdin, sys.stdout, sys.stderr, sys.argv = sv
        return p, c, status, detail

    def explore(self, job, stack, budget_s, stats, want_samples=2, deadline=None):
        """run until stack empty or budget used; returns (rest, results)"""
        from . import core, ctx as ctxm
        t_end = time.time() + budget_s
        if deadline:
            t_end = min(t_end, deadline)
        out = dict(samples=[], violations=[], known={}, notes=set(), mism=[], errors=[], unrep=[])
        base = dict(module=job['module'], fn=job['fn'], params=job['params'])
        every = job.get('validate_every', 25)
        while stack:
            if time.time() > t_end:
                break
            prefix = stack.pop()
            p, c, status, detail = self.run_path(job, prefix, stats, deadline)
            stack.extend(p.alts)
            out['notes'] |= p.notes
            if status == 'abort':
                stats['aborted'] += 1
                continue
            if status == 'budget':
                stack.append(prefix)
                break
            stats['paths'] += 1
            if c.nchecks:
                stats['checked_paths'] += 1
            for kid, (msg, m) in c.known_hits.items():
                if kid not in out['known']:
                    r = self.rep.run(dict(base, assign=m))
                    if kid in (r.get('known') or {}):
                        out['known'][kid] = dict(msg=msg, inputs=r['inputs'], assign=m, **base)
            if status == 'violation':
                msg, model = detail
                r = self.rep.run(dict(base, assign=model))
                if r.get('failed'):
                    out['violations'].append(dict(msg=r['failed'], assign=model, inputs=r['inputs'], obs=r['obs'], **base))
                    return stack, out
                stats['unreproduced'] += 1
                if len(out['unrep']) < 5:
                    out['unrep'].append(dict(msg=msg, assign=model, inputs=r.get('inputs'), err=r.get('error')))
                continue
            if status in ('hang', 'engine'):
                # decide this path's region by replaying its witness
                ok, m = p.zcheck([], full=True)
                stats['hang' if status == 'hang' else 'engine_errors'] += 1
                if ok:
                    r = self.rep.run(dict(base, assign=m))
                    if r.get('failed'):
                        out['violations'].append(dict(msg=r['failed'], assign=m, inputs=r['inputs'], obs=r['obs'], **base))
                        return stack, out
                if len(out['errors']) < 5:
                    out['errors'].append((status, detail, m))
                continue
            # leaf: the path condition must be satisfiable (reachability witness)
            ok, m = p.zcheck([], full=True)
            if ok:
                stats['leaf_sat'] += 1
            elif ok is False:
                stats['paths'] -= 1
                stats['aborted'] += 1
                continue
            if ok and (stats['paths'] <= 3 or stats['paths'] % every == 0):
                r = self.rep.run(dict(base, assign=m))
                core.set_path(p)
                if r.get('error') or r.get('killed'):
                    stats['mismatch'] += 1
                    out['mism'].append(dict(assign=m, err=r.get('error'), killed=r.get('killed')))
                elif r.get('failed'):
                    out['violations'].append(dict(msg=r['failed'], assign=m, inputs=r['inputs'], obs=r['obs'], **base))
                    return stack, out
                else:
                    from .norm import norm
                    mine = [norm(ctxm.evalm(o, m)) for o in c.obs]
                    mine = json.loads(json.dumps(mine))
                    mine = [fixpath(x) for x in mine]
                    if mine != [fixpath(x) for x in r['obs']]:
                        stats['mismatch'] += 1
                        if len(out['mism']) < 5:
                            out['mism'].append(dict(assign=m, sym=mine, real=r['obs'], inputs=r['inputs']))
                    else:
                        stats['validated'] += 1
                    if len(out['samples']) < want_samples:
                        out['samples'].append(dict(inputs=r['inputs'], observed=trunc(r['obs']), decisions=len(p.trace),
                                                   checks=c.nchecks))
        return stack, out


def trunc(o):
    s = json.dumps(o, ensure_ascii=True)
    return json.loads(s) if len(s) < 600 else s[:600]


def fixpath(x):
    """scratch directories differ between the two sides"""
    import re
    s = json.dumps(x)
    s = re.sub(r'/vfs/', '@/', s)
    s = re.sub(r'/[^"\s]*?symex_[A-Za-z0-9_]+/', '@/', s)
    return s


# ------------------------------------------------------------ workers

def worker(tasks, results, seed):
    import signal
    import gc
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    gc.freeze()
    r = Runner()
    while True:
        t = tasks.get()
        if t is None:
            break
        jid, job, stack, budget, deadline = t
        stats = new_stats()
        try:
            rest, out = r.explore(job, stack, budget, stats, deadline=deadline)
            results.put((jid, rest, stats, out, None))
        except BaseException:
            results.put((jid, [], stats, None, traceback.format_exc()))
    r.rep.close()
    results.put(None)


def run_jobs(jobs, deadline, nproc=8, seed=1, slice_s=2.0, stop_on_violation=True, log=None):
    """explore all jobs; returns per job dict of results"""
    rnd = random.Random(seed)
    mpc = mp.get_context('fork')
    tasks, results = mpc.Queue(), mpc.Queue()
    # import the harness modules before forking
    for j in jobs:
        importlib.import_module('props.' + j['module'])
    procs = [mpc.Process(target=worker, args=(tasks, results, seed + i), daemon=True) for i in range(nproc)]
    for p in procs:
        p.start()
    pend = {}        # jid -> list of prefixes not yet handed out
    state = {}
    order = list(range(len(jobs)))
    for i in order:
        pend[i] = [[]]
        state[i] = dict(stats=new_stats(), samples=[], violations=[], known={}, notes=set(), mism=[], errors=[],
                        unrep=[], crash=[], done=False, active=0, t0=None, t1=None)
    active = 0
    stop = False
    jobdl = {}
    rr = 0
    while True:
        # hand out work
        while active < nproc + 2 and not stop and time.time() < deadline:
            cand = [i for i in order if pend[i]]
            if not cand:
                break
            # round robin so that every job makes progress
            i = cand[rr % len(cand)]
            rr += 1
            pl = pend[i]
            n = max(1, len(pl) // max(1, nproc // max(1, min(len(cand), nproc))))
            n = min(n, 400)
            if len(pl) > n:
                rnd.shuffle(pl)
            chunk, pend[i] = pl[:n], pl[n:]
            state[i]['active'] += 1
            if state[i]['t0'] is None:
                state[i]['t0'] = time.time()
            # short slices while there is little work to spread
            b = 0.25 if len(pend[i]) < nproc else slice_s
            tasks.put((i, jobs[i], chunk, b, deadline))
            active += 1
        if active == 0:
            break
        try:
            item = results.get(timeout=30)
        except queue.Empty:
            if time.time() > deadline + 60:
                break
            if not all(p.is_alive() for p in procs):
                break
            continue
        active -= 1
        i, rest, stats, out, err = item
        s = state[i]
        s['active'] -= 1
        s['t1'] = time.time()
        for k, v in stats.items():
            s['stats'][k] += v
        if err:
            s['crash'].append(err)
        if out:
            for k in ('violations', 'errors', 'unrep', 'mism'):
                s[k] += out[k]
            s['samples'] = (s['samples'] + out['samples'])[:3]
            s['notes'] |= out['notes']
            for k, v in out['known'].items():
                s['known'].setdefault(k, v)
            if out['violations'] and stop_on_violation:
                stop = True
        pend[i] += rest
        if stop:
            break
    for i in order:
        s = state[i]
        s['left'] = len(pend[i])
        s['complete'] = not pend[i] and s['active'] == 0 and not s['crash']
    for p in procs:
        if stop or time.time() > deadline:
            p.terminate()
    if not stop:
        for _ in procs:
            tasks.put(None)
    t = time.time() + 5
    for p in procs:
        p.join(max(0.1, t - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
    return state
