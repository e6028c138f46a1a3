"""The interface harnesses use.  SymCtx runs them symbolically, ConcCtx (in
concrete.py) runs the same harness on the real, unmodified code."""
import sys
import z3

from . import core, rt, fs
from .core import (Alphabet, SymBool, BZ, decide, tobool, sand, sor, snot, assume_raw, choose, PathAbort, Hang,
                   CrashPoint, Budget, NoFork, BU)
from .sym import SymStr, UCh, ZCh, SymNum, UInt, SymInt, SymBytes, Opaque, mk, elems, isstr


class Outcome:
    """result of a call into the code under test"""

    def __init__(self, kind, value):
        self.kind = kind        # 'ok' | 'exc' | 'exit' | 'hang' | 'crash'
        self.value = value      # return value | exception class name | exit status

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.value)


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


def same(a, b):
    """structural equality, possibly symbolic"""
    if isinstance(a, Outcome) and isinstance(b, Outcome):
        if a.kind != b.kind:
            return False
        return same(a.value, b.value)
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb in (list, tuple):
        if len(a) != len(b):
            return False
        return sand([same(x, y) for x, y in zip(a, b)])
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        r = []
        for k in a:
            kk = rt.find_key(b, k)
            if kk is rt._NOPE:
                return False
            r.append(same(a[k], b[kk]))
        return sand(r)
    if isinstance(a, (rt.SymSet, set, frozenset)) and isinstance(b, (rt.SymSet, set, frozenset)):
        return tobool(rt.SymSet(a) == rt.SymSet(b))
    return tobool(rt.eq(a, b))


class SymCtx:
    symbolic = True
    __symex_stub__ = True

    def __init__(self, path):
        self.p = path
        self.known_hits = {}
        self.nchecks = 0
        self.obs = []
        self.msgs = []
        self.last_model = None

    # ---------- inputs
    def char(self, name, alpha):
        a = Alphabet(alpha)
        v = self.p.newvar(name, a)
        return mk((UCh(v, a.ident),))

    def str(self, name, n, alpha):
        a = Alphabet(alpha)
        return mk([UCh(self.p.newvar('%s.%d' % (name, i), a), a.ident) for i in range(n)])

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        a = Alphabet(range(len(options)))
        v = self.p.newvar(name, a)
        return options[choose(v)]

    def strpick(self, name, lo, hi, alpha):
        """string whose length is symbolic in lo..hi"""
        n = self.pick(name + '.len', range(lo, hi + 1))
        return self.str(name, n, alpha)

    def flag(self, name):
        return self.pick(name, [False, True])

    def int(self, name, lo, hi):
        z = core.zvar(name)
        self.p.ints[name] = (z, lo)
        self.p.cons.append(BZ(z3.And(z >= lo, z <= hi)))
        if self.p.model is not None:
            self.p.model[name] = lo
        return SymInt(z)

    def enum(self, name, values):
        """symbolic value out of a finite set, not forked until used"""
        a = Alphabet(values)
        v = self.p.newvar(name, a)
        from .sym import wrapfn
        return wrapfn(v, a.ident)

    # ---------- logic
    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        r = c.ev()
        if r is False:
            raise PathAbort()
        if r is True:
            return
        assume_raw(c)
        if not isinstance(c, BU):
            ok, m = self.p.zcheck([])
            if ok is False:
                raise PathAbort()

    def same(self, a, b):
        return same(a, b)

    def all(self, xs):
        return sand([tobool(x) for x in xs])

    def any(self, xs):
        return sor([tobool(x) for x in xs])

    def neg(self, x):
        return snot(tobool(x))

    def implies(self, a, b):
        return sor([snot(tobool(a)), tobool(b)])

    def check(self, cond, msg, known=()):
        self.nchecks += 1
        self.msgs.append(msg)
        st = self.p.stats
        st['checks'] += 1
        cond = tobool(cond)
        if cond is True:
            return
        if isinstance(cond, SymBool) and cond.ev() is True:
            return
        neg = True if cond is False else snot(cond)
        extra = [] if neg is True else [neg]
        st['asserts'] += 1
        for kid, pred in known:
            pred = tobool(pred)
            if pred is False:
                continue
            if kid not in self.known_hits:
                ok, m = self.p.zcheck(extra + ([] if pred is True else [pred]), full=True)
                if ok:
                    self.known_hits[kid] = (msg, m)
            if pred is True:
                return
            extra.append(snot(pred))
        ok, m = self.p.zcheck(extra, full=True)
        if ok:
            raise Violation(msg, m)
        if ok is None:
            self.p.notes.add('unknown: ' + msg)

    def observe(self, *v):
        self.obs.append(v)

    # ---------- calls
    def call(self, f, *a, **k):
        p = self.p
        p.ticks = 0
        try:
            r = Outcome('ok', rt.call(f, *a, **k))
        except Exception as e:
            r = Outcome('exc', type(e).__name__)
            r.exc = e
        except SystemExit as e:
            r = Outcome('exit', 0 if e.code is None else e.code)
        except Hang:
            r = Outcome('hang', None)
            p.ticks = 0
        except CrashPoint:
            r = Outcome('crash', None)
        self.obs.append(r)
        return r

    # ---------- files and streams
    def path(self, name):
        return '/vfs/' + name

    def write(self, name, text, mode=0o644):
        fs.F.files['/vfs/' + name] = fs.Node(elems(text), mode)

    def read(self, name):
        n = fs.F.files.get(fs.key('/vfs/' + name))
        return None if n is None else mk(n.data)

    def filemode(self, name):
        return fs.F.files[fs.key('/vfs/' + name)].mode

    def exists(self, name):
        return fs.key('/vfs/' + name) in fs.F.files

    def link(self, name, target):
        fs.F.links['/vfs/' + name] = '/vfs/' + target

    def islink(self, name):
        return '/vfs/' + name in fs.F.links

    def xdev(self, on):
        """temporary files lie on another file system"""
        fs.F.xdev = on

    def listdir(self):
        return sorted(k[5:] for k in list(fs.F.files) + list(fs.F.links) if k.startswith('/vfs/') and not k.startswith(fs.tmpdir()))

    def bad(self):
        return fs.BAD

    def set_stdin(self, text):
        sys.stdin = fs.SymFile('<stdin>', 'r', None, elems(text), seekable=False, name='<stdin>')

    def set_stdin_closed(self):
        pass

    def stdout(self):
        r = sys.stdout.value()
        sys.stdout.parts = []
        return r

    def argv(self, args):
        sys.argv = list(args)

    # ---------- faults: `at` is the number of the mutating file operation
    def fault(self, kind, at):
        """kind 'crash' or 'error': the at-th mutating operation fails"""
        def hook(n, name, path):
            if n == at:
                if kind == 'crash':
                    raise CrashPoint()
                raise OSError(5, 'injected I/O error')
        fs.F.hook = hook

    def nofault(self):
        fs.F.hook = None
        fs.F.dead = False

    def nops(self):
        return len(fs.F.ops)

    def reset_ops(self):
        fs.F.ops = []

    def force(self, x):
        return rt.force(x)


def evalm(v, m):
    """value of a symbolic object under a model (name -> index)"""
    if isinstance(v, SymStr):
        return ''.join(ev_el(e, m) for e in v.el)
    if isinstance(v, UInt):
        return v.fn.vals[m[v.var.name]]
    if isinstance(v, SymInt):
        return zeval(v.e, m)
    if isinstance(v, SymBool):
        return v.at(m)
    if isinstance(v, SymBytes):
        s = evalm(v.s, m)
        return s.encode(v.enc)
    if isinstance(v, Opaque):
        return Opaque(v.kind, evalm(v.s, m)).force()
    if isinstance(v, Outcome):
        return {'kind': v.kind, 'value': evalm(v.value, m)}
    if isinstance(v, (list, tuple)):
        return [evalm(x, m) for x in v]
    if isinstance(v, dict):
        return {evalm(k, m): evalm(x, m) for k, x in v.items()}
    if isinstance(v, rt.SymSet):
        return {evalm(x, m) for x in v.items}
    return v


def ev_el(e, m):
    if type(e) is str:
        return e
    if type(e) is UCh:
        return e.fn.vals[m[e.var.name]]
    return str(zeval(e.e, m))


def zeval(e, m):
    p = core.P
    sub = [(z, z3.IntVal(m.get(n, lo))) for n, (z, lo) in p.ints.items()]
    sub += [(v.z, z3.IntVal(m[v.name])) for v in p.vars.values() if v.name in m]
    return z3.simplify(z3.substitute(e, *sub)).as_long()
