"""Runs a harness on the real code (no instrumentation) with concrete inputs.

Used by the symbolic side as a subprocess under the interpreter that has the
project installed; one JSON request per line, one JSON reply per line.  Each
request runs in a forked child inside its own scratch directory, so that
crashes, hangs, exits and injected faults stay contained.
"""
import builtins
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('SYMEX_REPO', '/repo'))
sys.path.insert(1, HERE)
sys.dont_write_bytecode = True

from symex.norm import norm  # noqa: E402


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.value)


class Abort(BaseException):
    pass


class Failed(BaseException):
    pass


class Crash(BaseException):
    pass


def same(a, b):
    if isinstance(a, Outcome) and isinstance(b, Outcome):
        return a.kind == b.kind and same(a.value, b.value)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class ConcCtx:
    symbolic = False

    def __init__(self, assign, root):
        self.a = assign
        self.root = root
        self.obs = []
        self.failed = None
        self.nchecks = 0
        self.known_hits = {}
        self.inputs = {}
        self._ops = 0
        self._hook = None
        self._shim = False
        self._dead = False
        self._xdev = False

    # ---------- inputs
    def _get(self, name):
        return self.a[name]

    def char(self, name, alpha):
        c = tuple(alpha)[self.a[name]]
        self.inputs[name] = c
        return c

    def str(self, name, n, alpha):
        al = tuple(alpha)
        s = ''.join(al[self.a['%s.%d' % (name, i)]] for i in range(n))
        self.inputs[name] = s
        return s

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = options[self.a[name]]
        self.inputs[name] = v if isinstance(v, (str, int, bool, type(None))) else repr(v)
        return v

    def strpick(self, name, lo, hi, alpha):
        n = self.pick(name + '.len', range(lo, hi + 1))
        return self.str(name, n, alpha)

    def flag(self, name):
        return self.pick(name, [False, True])

    def int(self, name, lo, hi):
        self.inputs[name] = self.a[name]
        return self.a[name]

    def enum(self, name, values):
        v = tuple(values)[self.a[name]]
        self.inputs[name] = v
        return v

    # ---------- logic
    def assume(self, c):
        if not c:
            raise Abort()

    def same(self, a, b):
        return same(a, b)

    def all(self, xs):
        return all([bool(x) for x in xs])

    def any(self, xs):
        return any([bool(x) for x in xs])

    def neg(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def check(self, cond, msg, known=()):
        self.nchecks += 1
        if cond:
            return
        for kid, pred in known:
            if pred:
                self.known_hits[kid] = msg
                return
        self.failed = msg
        raise Failed()

    def observe(self, *v):
        self.obs.append(v)

    def call(self, f, *a, **k):
        try:
            r = Outcome('ok', f(*a, **k))
        except Exception as e:
            r = Outcome('exc', type(e).__name__)
            r.exc = e
        except SystemExit as e:
            r = Outcome('exit', 0 if e.code is None else e.code)
        except Crash:
            r = Outcome('crash', None)
        self.obs.append(r)
        return r

    # ---------- files
    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, name, text, mode=0o644):
        with _open(self.path(name), 'wb') as f:
            f.write(text.encode('utf-8', 'surrogateescape'))
        os.chmod(self.path(name), mode)

    def read(self, name):
        try:
            with _open(self.path(name), 'rb') as f:
                return f.read().decode('utf-8', 'surrogateescape')
        except FileNotFoundError:
            return None

    def filemode(self, name):
        return os.stat(self.path(name)).st_mode & 0o7777

    def exists(self, name):
        return os.path.exists(self.path(name))

    def link(self, name, target):
        os.symlink(target, self.path(name))

    def islink(self, name):
        return os.path.islink(self.path(name))

    def xdev(self, on):
        self._xdev = on
        self.install_shim()

    def crossing(self, s, d):
        t = os.path.join(os.path.realpath(self.root), 'tmp') + '/'

        def tmp(p):
            p = os.fspath(p)
            return (os.path.join(os.path.realpath(os.path.dirname(p) or '.'), os.path.basename(p)) + '/').startswith(t)
        return self._xdev and tmp(s) != tmp(d)

    def listdir(self):
        return sorted(x for x in os.listdir(self.root) if x != 'tmp')

    def bad(self):
        return '\udcff'

    def set_stdin(self, text):
        r, w = os.pipe()
        data = text.encode('utf-8', 'surrogateescape')
        assert len(data) < 60000
        os.write(w, data)
        os.close(w)
        sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(r)), encoding='utf-8')

    def stdout(self):
        r = sys.stdout.getvalue()
        sys.stdout.seek(0)
        sys.stdout.truncate()
        return r

    def argv(self, args):
        sys.argv = list(args)

    # ---------- faults
    def fault(self, kind, at):
        self._kind, self._at = kind, at
        self._ops = 0
        self.install_shim()
        self._hook = True
        self._dead = False

    def nofault(self):
        self._hook = None
        self._dead = False

    def nops(self):
        return self._ops

    def reset_ops(self):
        self._ops = 0
        self._hook = None
        self._dead = False
        self.install_shim()

    def op(self, name):
        if getattr(self, '_dead', False):
            raise Crash()
        n = self._ops
        self._ops += 1
        if self._hook and n == self._at:
            if self._kind == 'crash':
                self._dead = True
                raise Crash()
            raise OSError(5, 'injected I/O error')

    def install_shim(self):
        if self._shim:
            return
        self._shim = True
        ctx = self

        class Fproxy:
            """counts writes and flushes; after a crash nothing reaches the disk"""

            def __init__(self, f, name=None):
                self.__dict__['f'] = f
                self.__dict__['pending'] = False

            def __getattr__(self, n):
                return getattr(self.__dict__['f'], n)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __iter__(self):
                return iter(self.f)

            def write(self, s):
                ctx.op('write')
                self.__dict__['pending'] = self.__dict__['pending'] or len(s) > 0
                return self.f.write(s)

            def writelines(self, it):
                for x in it:
                    self.write(x)

            def flush(self):
                if self.pending and not ctx._dead:
                    ctx.op('flush')
                    self.__dict__['pending'] = False
                if not ctx._dead:
                    self.f.flush()

            def close(self):
                if self.f.closed:
                    return
                if ctx._dead:
                    self._drop()
                    return
                try:
                    self.flush()
                except BaseException:
                    self._drop()
                    raise
                self.f.close()

            def _drop(self):
                # discard the Python level buffer: redirect the descriptor
                fd = self.f.fileno()
                nul = os.open('/dev/null', os.O_WRONLY)
                os.dup2(nul, fd)
                os.close(nul)
                self.f.close()

        def wrap(orig, name):
            def g(*a, **k):
                ctx.op(name)
                return orig(*a, **k)
            return g

        ropen = builtins.open

        def o(file, mode='r', *a, **k):
            if any(c in mode for c in 'wax+'):
                ctx.op('open-' + mode)
                return Fproxy(ropen(file, mode, *a, **k))
            return ropen(file, mode, *a, **k)
        builtins.open = o
        io.open = o
        rn = tempfile.NamedTemporaryFile

        def ntf(*a, **k):
            ctx.op('mktemp')
            # the wrapper class opens through io.open: use the original here
            io.open = ropen
            try:
                return Fproxy(rn(*a, **k))
            finally:
                io.open = o
        tempfile.NamedTemporaryFile = ntf
        tempfile.mkdtemp = wrap(tempfile.mkdtemp, 'mktemp')
        os.mkdir, rmkdir = wrap(os.mkdir, 'mkdir'), os.mkdir
        rmk = tempfile.mkdtemp

        def mkdtemp(*a, **k):
            os.mkdir, save = rmkdir, os.mkdir
            try:
                return rmk(*a, **k)
            finally:
                os.mkdir = save
        tempfile.mkdtemp = mkdtemp
        rtree = shutil.rmtree
        runlink, rremove = os.unlink, os.remove

        def rmtree(*a, **k):
            if ctx._dead:
                return
            save = os.unlink, os.remove
            os.unlink, os.remove = runlink, rremove
            try:
                return rtree(*a, **k)
            finally:
                os.unlink, os.remove = save
        shutil.rmtree = rmtree
        ms = tempfile.mkstemp
        tempfile.mkstemp = wrap(ms, 'mktemp')
        rmove = shutil.move
        orename = os.rename

        def move(src, dst, *a, **k):
            if ctx.crossing(src, dst):
                # as shutil.move does when os.rename refuses
                shutil.copyfile(src, dst)
                shutil.copymode(src, dst)
                os.unlink(src)
                return dst
            ctx.op('rename')
            save = os.rename
            os.rename = orename
            try:
                return rmove(src, dst, *a, **k)
            finally:
                os.rename = save
        shutil.move = move
        os.fsync = wrap(os.fsync, 'fsync')
        if hasattr(os, 'fdatasync'):
            os.fdatasync = wrap(os.fdatasync, 'fsync')

        def wrapren(orig):
            def g(src, dst, *a, **k):
                ctx.op('rename')
                if ctx.crossing(src, dst):
                    raise OSError(18, 'Invalid cross-device link', src)
                return orig(src, dst, *a, **k)
            return g
        os.replace = wrapren(os.replace)
        os.rename = wrapren(os.rename)
        os.remove = wrap(os.remove, 'remove')
        os.unlink = wrap(os.unlink, 'remove')
        ochmod = os.chmod
        os.chmod = wrap(ochmod, 'chmod')
        rcm = shutil.copymode

        def copymode(*a, **k):
            ctx.op('chmod')
            save = os.chmod
            os.chmod = ochmod
            try:
                return rcm(*a, **k)
            finally:
                os.chmod = save
        shutil.copymode = copymode
        shutil.copystat = copymode
        fdo = os.fdopen

        def fdopen(fd, mode='r', *a, **k):
            io.open = ropen
            try:
                f = fdo(fd, mode, *a, **k)
            finally:
                io.open = o
            return Fproxy(f) if any(c in mode for c in 'wax+') else f
        os.fdopen = fdopen
        rcf = shutil.copyfile

        def copyfile(src, dst, **k):
            ctx.op('open-w')
            ropen(dst, 'wb').close()
            ctx.op('flush')
            builtins.open = ropen
            io.open = ropen
            try:
                return rcf(src, dst, **k)
            finally:
                builtins.open = o
                io.open = o
        shutil.copyfile = copyfile

    def force(self, x):
        return x


_open = builtins.open


def run_one(req, root):
    os.mkdir(os.path.join(root, 'tmp'))
    tempfile.tempdir = os.path.join(root, 'tmp')
    os.environ['TMPDIR'] = tempfile.tempdir
    res = {'failed': None}
    out, err = sys.stdout, sys.stderr
    real_unlink = os.unlink
    try:
        os.chdir(root)
        m = importlib.import_module('props.' + req['module'])
        ctx = ConcCtx(req['assign'], root)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            getattr(m, req['fn'])(ctx, **req['params'])
        except Abort:
            res['aborted'] = True
        except Failed:
            res['failed'] = ctx.failed
        finally:
            sys.stdout, sys.stderr = out, err
        res['obs'] = [norm(o) for o in ctx.obs]
        res['inputs'] = ctx.inputs
        res['known'] = ctx.known_hits
        res['nchecks'] = ctx.nchecks
    except BaseException as e:
        sys.stdout, sys.stderr = out, err
        res['error'] = ''.join(traceback.format_exception(e))
    finally:
        os.unlink = real_unlink
    return res


def serve():
    proto_out = os.fdopen(os.dup(1), 'w')
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)
    # import once so that children share it
    import md_toc.api  # noqa
    import md_toc.__main__  # noqa
    for line in sys.stdin:
        req = json.loads(line)
        root = tempfile.mkdtemp(prefix='symex_')
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(int(req.get('timeout', 20)))
            try:
                data = json.dumps(run_one(req, root)).encode()
            except BaseException as e:
                data = json.dumps({'error': repr(e)}).encode()
            o = 0
            while o < len(data):
                o += os.write(w, data[o:o + 65536])
            os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(root, ignore_errors=True)
        if os.WIFSIGNALED(status):
            hang = os.WTERMSIG(status) == signal.SIGALRM
            text = json.dumps({'failed': 'does not terminate (killed after %ss)' % req.get('timeout', 20) if hang else None,
                               'killed': os.WTERMSIG(status), 'obs': [], 'inputs': {}, 'known': {}})
        else:
            text = data.decode()
        proto_out.write(text.replace('\n', ' ') + '\n')
        proto_out.flush()


if __name__ == '__main__':
    serve()
