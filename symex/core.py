"""Symbolic values and path state.

A symbolic input is a finite-domain variable (`Var`): its z3 counterpart is an
Int that ranges over the indices of the variable's alphabet.  A value computed
from ONE variable is kept as a finite function of it (`Fn`, a table built by
applying the real Python operation to every alphabet member), values computed
from several variables or from unbounded integers are z3 terms.  Branches are
decided with per-variable domains (bit masks) where that is exact and with z3
otherwise; every leaf is decided by z3.
"""
import time
import z3

NOFORK = 0


class PathAbort(BaseException):
    """The current path is abandoned (assumption violated / infeasible)."""


class NoFork(BaseException):
    """A fork was needed while forking is disabled (speculative evaluation)."""


class Budget(BaseException):
    """Time or work budget exhausted."""


class Hang(BaseException):
    """The code under test exceeded its step budget on this path."""


class CrashPoint(BaseException):
    """Simulated crash of the process."""


# ---------------------------------------------------------------- alphabets

class Alphabet:
    _cache = {}

    def __new__(cls, values):
        values = tuple(values)
        k = (values, tuple(type(v) for v in values))
        a = cls._cache.get(k)
        if a is None:
            a = object.__new__(cls)
            a.values = values
            a.n = len(values)
            a.full = (1 << a.n) - 1
            a.ident = None
            a.ident = Fn(a, values)
            a.fns = {}
            a.fns[k] = a.ident
            cls._cache[k] = a
        return a


class Fn:
    """A total function on an alphabet, as a table."""
    __slots__ = ('alpha', 'vals', 'cache', 'inv')

    def __init__(self, alpha, vals):
        self.alpha = alpha
        self.vals = vals
        self.cache = {}
        self.inv = None

    def inverse(self):
        if self.inv is None:
            d = {}
            for i, v in enumerate(self.vals):
                k = (type(v), v)
                d[k] = d.get(k, 0) | (1 << i)
            self.inv = d
        return self.inv

    def mask_eq(self, value):
        return self.inverse().get((type(value), value), 0)

    def mask(self, key, pred):
        """mask of the alphabet members whose value satisfies pred; cached by key"""
        m = self.cache.get(key)
        if m is None:
            m = 0
            for i, v in enumerate(self.vals):
                if pred(v):
                    m |= 1 << i
            self.cache[key] = m
        return m

    def map(self, key, f):
        r = self.cache.get(key)
        if r is None:
            vals = []
            for v in self.vals:
                if isinstance(v, Raised):
                    vals.append(v)
                    continue
                try:
                    vals.append(f(v))
                except Exception as e:
                    vals.append(Raised(e))
            r = self.cache[key] = mkfn(self.alpha, tuple(vals))
        return r


def mkfn(alpha, vals):
    try:
        k = (vals, tuple(type(v) for v in vals))
        f = alpha.fns.get(k)
        if f is None:
            f = alpha.fns[k] = Fn(alpha, vals)
        return f
    except TypeError:
        return Fn(alpha, vals)


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, o):
        return isinstance(o, Raised) and type(o.exc) is type(self.exc)

    def __hash__(self):
        return hash(type(self.exc))


class Var:
    __slots__ = ('name', 'alpha', 'dom', 'entangled', 'z')

    def __init__(self, name, alpha):
        self.name = name
        self.alpha = alpha
        self.dom = alpha.full
        self.entangled = False
        self.z = zvar(name)

    def __repr__(self):
        return self.name


_zv = {}


def zvar(name):
    v = _zv.get(name)
    if v is None:
        v = _zv[name] = z3.Int(name)
    return v


_zm = {}


def zmask(var, mask):
    """z3 term: var's index lies in mask"""
    k = (var.name, var.alpha.n, mask)
    e = _zm.get(k)
    if e is None:
        terms = []
        i, n = 0, var.alpha.n
        while i < n:
            if mask >> i & 1:
                j = i
                while j + 1 < n and mask >> (j + 1) & 1:
                    j += 1
                if i == j:
                    terms.append(var.z == i)
                elif i == 0 and j == n - 1:
                    terms.append(z3.And(var.z >= 0, var.z < n))
                else:
                    terms.append(z3.And(var.z >= i, var.z <= j))
                i = j + 1
            else:
                i += 1
        e = z3.BoolVal(False) if not terms else (terms[0] if len(terms) == 1 else z3.Or(terms))
        _zm[k] = e
    return e


def zfun(var, fn):
    """z3 Int term for an int-valued fn"""
    k = ('f', var.name, id(fn))
    e = _zm.get(k)
    if e is None:
        runs = []
        for i, v in enumerate(fn.vals):
            d = int(v) - i
            if runs and runs[-1][1] == d:
                continue
            runs.append((i, d))
        e = None
        for (start, d) in reversed(runs):
            t = var.z + d
            # value i + d for i >= start (until the next run)
            e = t if e is None else z3.If(var.z < nxt, t, e)
            nxt = start
        _zm[k] = e
        _zm[('keep', id(fn))] = fn
    return e


# ---------------------------------------------------------------- path state

class Path:
    def __init__(self, prefix, solver, stats, deadline=None):
        self.prefix = prefix
        self.trace = []
        self.alts = []          # alternative prefixes discovered on this path
        self.vars = {}
        self.cons = []          # non-unary SymBools assumed on this path
        self.known = {}         # id -> (SymBool, its truth decided on this path)
        self.solver = solver
        self.stats = stats
        self.model = None       # name -> index / int  (satisfying assignment)
        self.deadline = deadline
        self.ints = {}
        self.ticks = 0
        self.maxticks = 60000
        self.notes = set()
        self.forklimit = 5000

    def newvar(self, name, alpha):
        v = self.vars.get(name)
        if v is not None:
            raise RuntimeError('duplicate variable ' + name)
        v = Var(name, alpha)
        self.vars[name] = v
        if self.model is not None:
            self.model[name] = 0
        return v

    # -- solver access
    def base(self):
        out = [zmask(v, v.dom) for v in self.vars.values() if v.entangled]
        return out

    def zcheck(self, extra, want_model=False, full=False):
        """sat? of path condition and extra SymBools / z3 terms"""
        s = self.solver
        s.push()
        try:
            for v in self.vars.values():
                if v.entangled or full:
                    s.add(zmask(v, v.dom))
            for c in self.cons:
                s.add(c.z())
            for e in extra:
                if isinstance(e, SymBool):
                    if not full:
                        for v in e.vars():
                            if not v.entangled:
                                s.add(zmask(v, v.dom))
                    e = e.z()
                s.add(e)
            t0 = time.perf_counter()
            r = s.check()
            dt = time.perf_counter() - t0
            st = self.stats
            st['queries'] += 1
            st['solver_s'] += dt
            if r == z3.sat:
                m = s.model()
                return True, self.extract(m)
            if r == z3.unsat:
                return False, None
            st['unknown'] += 1
            return None, None
        finally:
            s.pop()

    def int_value(self, si):
        """a feasible value of a z3 integer; logged in the trace for replay"""
        if NOFORK:
            raise NoFork()
        if len(self.trace) < len(self.prefix):
            t = self.prefix[len(self.trace)]
            self.trace.append(t)
            return t[1]
        z = z3.Int('$val')
        self.ints['$val'] = (z, 0)
        ok, m = self.zcheck([BZ(z == si._z(), si._vars())])
        del self.ints['$val']
        if not ok:
            raise PathAbort()
        v = m['$val']
        self.trace.append(('v', v))
        return v

    def extract(self, m):
        d = {}
        for v in self.vars.values():
            x = m.eval(v.z)
            if z3.is_int_value(x):
                i = x.as_long()
                if not (0 <= i < v.alpha.n and v.dom >> i & 1):
                    i = low(v.dom)
            else:
                i = low(v.dom)
            d[v.name] = i
        for name, (z, lo) in self.ints.items():
            x = m.eval(z)
            d[name] = x.as_long() if z3.is_int_value(x) else lo
        return d


def bits(m):
    """indices of the bits of a mask"""
    return [i for i in range(m.bit_length()) if m >> i & 1]


def low(m):
    return (m & -m).bit_length() - 1


P = None      # the current path


def set_path(p):
    global P
    P = p


def tick(n=1):
    p = P
    if p is None:
        return
    p.ticks += n
    if p.ticks > p.maxticks:
        raise Hang()
    if not p.ticks & 1023 and p.deadline and time.time() > p.deadline:
        raise Budget()


# ---------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ()

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return sand([self, tobool(o)])
    __rand__ = __and__

    def __or__(self, o):
        return sor([self, tobool(o)])
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if o is True or (type(o) is int and o == 1):
            return self
        if o is False or (type(o) is int and o == 0):
            return snot(self)
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        if isinstance(o, (int, bool)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return repr(bool(self))

    def __lt__(self, o): return int(bool(self)) < o
    def __le__(self, o): return int(bool(self)) <= o
    def __gt__(self, o): return int(bool(self)) > o
    def __ge__(self, o): return int(bool(self)) >= o


class BU(SymBool):
    """unary: var in mask"""
    __slots__ = ('var', 'mask')

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask

    def ev(self):
        d = self.var.dom
        x = d & self.mask
        if not x:
            return False
        if x == d:
            return True
        return None

    def z(self):
        return zmask(self.var, self.mask)

    def vars(self):
        return (self.var,)

    def at(self, m):
        return bool(self.mask >> m[self.var.name] & 1)


def known(b):
    """what this path decided about b"""
    k = P.known.get(id(b)) if P is not None else None
    return None if k is None else k[1]


def learn(p, b, v):
    if isinstance(b, BNary):
        p.known[id(b)] = (b, v)


class BNary(SymBool):
    __slots__ = ('args', '_vars', '_z', '_not')

    def __init__(self, args):
        self.args = args
        self._vars = None
        self._z = None
        self._not = None

    def vars(self):
        if self._vars is None:
            s = {}
            for a in self.args:
                for v in a.vars():
                    s[v] = 1
            self._vars = tuple(s)
        return self._vars


class BAnd(BNary):
    __slots__ = ()

    def ev(self):
        r = known(self)
        if r is not None:
            return r
        r = True
        for a in self.args:
            x = a.ev()
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def z(self):
        if self._z is None:
            self._z = z3.And([a.z() for a in self.args])
        return self._z

    def at(self, m):
        return all(a.at(m) for a in self.args)


class BOr(BNary):
    __slots__ = ()

    def ev(self):
        r = known(self)
        if r is not None:
            return r
        r = False
        for a in self.args:
            x = a.ev()
            if x is True:
                return True
            if x is None:
                r = None
        return r

    def z(self):
        if self._z is None:
            self._z = z3.Or([a.z() for a in self.args])
        return self._z

    def at(self, m):
        return any(a.at(m) for a in self.args)


class BEq2(SymBool):
    """f(v1) == g(v2), v1 is not v2"""
    __slots__ = ('v1', 'f1', 'v2', 'f2', 'neg')

    def __init__(self, v1, f1, v2, f2, neg=False):
        self.v1, self.f1, self.v2, self.f2, self.neg = v1, f1, v2, f2, neg

    def ev(self):
        d1, d2 = self.v1.dom, self.v2.dom
        one1 = d1 & (d1 - 1) == 0
        one2 = d2 & (d2 - 1) == 0
        if one1:
            m = self.f2.mask_eq(self.f1.vals[low(d1)])
            x = d2 & m
            r = False if not x else (True if x == d2 else None)
        elif one2:
            m = self.f1.mask_eq(self.f2.vals[low(d2)])
            x = d1 & m
            r = False if not x else (True if x == d1 else None)
        else:
            r = None
            if self.f1 is self.f2:
                if d1 & d2 == 0:
                    r = False
            else:
                inv2 = self.f2.inverse()
                if not any(m & d1 and inv2.get(k, 0) & d2 for k, m in self.f1.inverse().items()):
                    r = False
        if r is None:
            return None
        return (not r) if self.neg else r

    def z(self):
        if self.f1 is self.f2 and self.f1 is self.v1.alpha.ident:
            e = self.v1.z == self.v2.z
        else:
            inv2 = self.f2.inverse()
            t = []
            for k, m in self.f1.inverse().items():
                m2 = inv2.get(k, 0) & self.v2.dom
                m &= self.v1.dom
                if m and m2:
                    t.append(z3.And(zmask(self.v1, m), zmask(self.v2, m2)))
            e = z3.Or(t) if t else z3.BoolVal(False)
        return z3.Not(e) if self.neg else e

    def vars(self):
        return (self.v1, self.v2)

    def at(self, m):
        a = self.f1.vals[m[self.v1.name]]
        b = self.f2.vals[m[self.v2.name]]
        return (type(a) is type(b) and a == b) != self.neg


class BZ(SymBool):
    """arbitrary z3 term"""
    __slots__ = ('e', '_vars', 'f')

    def __init__(self, e, vars=(), f=None):
        self.e = e
        self._vars = tuple(vars)
        self.f = f

    def ev(self):
        return None

    def z(self):
        return self.e

    def vars(self):
        return self._vars

    def at(self, m):
        if self.f is not None:
            return bool(self.f(m))
        sub = []
        for n, (z, lo) in P.ints.items():
            sub.append((z, z3.IntVal(m.get(n, lo))))
        for v in self._vars:
            sub.append((v.z, z3.IntVal(m[v.name])))
        r = z3.simplify(z3.substitute(self.e, *sub))
        return z3.is_true(r)


def tobool(x):
    if isinstance(x, SymBool) or x is True or x is False:
        return x
    return bool(x)


def bu(var, mask):
    m = mask & var.dom
    if not m:
        return False
    if m == var.dom:
        return True
    return BU(var, mask)


def sand(items):
    out = {}
    res = []
    for x in items:
        if isinstance(x, BAnd):
            xs = x.args
        else:
            xs = (x,)
        for y in xs:
            if y is True:
                continue
            if y is False:
                return False
            if isinstance(y, BU):
                if y.var in out:
                    out[y.var] &= y.mask
                else:
                    out[y.var] = y.mask
            else:
                res.append(y)
    us = []
    for v, m in out.items():
        b = bu(v, m)
        if b is False:
            return False
        if b is not True:
            us.append(b)
    us += res
    if not us:
        return True
    if len(us) == 1:
        return us[0]
    return BAnd(us)


def sor(items):
    out = {}
    res = []
    for x in items:
        xs = x.args if isinstance(x, BOr) else (x,)
        for y in xs:
            if y is False:
                continue
            if y is True:
                return True
            if isinstance(y, BU):
                out[y.var] = out.get(y.var, 0) | y.mask
            else:
                res.append(y)
    us = []
    for v, m in out.items():
        b = bu(v, m)
        if b is True:
            return True
        if b is not False:
            us.append(b)
    us += res
    if not us:
        return False
    if len(us) == 1:
        return us[0]
    return BOr(us)


def snot(b):
    if b is True:
        return False
    if b is False:
        return True
    if isinstance(b, BU):
        return bu(b.var, b.var.alpha.full & ~b.mask)
    if isinstance(b, BNary):
        k = known(b)
        if k is not None:
            return not k
        if b._not is None:
            n = [snot(a) for a in b.args]
            b._not = sor(n) if isinstance(b, BAnd) else sand(n)
        return b._not
    if isinstance(b, BEq2):
        return BEq2(b.v1, b.f1, b.v2, b.f2, not b.neg)
    if isinstance(b, BZ):
        f = b.f
        return BZ(z3.Not(b.e), b._vars, f and (lambda m: not f(m)))
    return not b


def assume_raw(b):
    """add b to the path condition; b is known not to be definitely false"""
    p = P
    if b is True:
        return
    if b is False:
        raise PathAbort()
    if isinstance(b, BU):
        d = b.var.dom & b.mask
        if not d:
            raise PathAbort()
        b.var.dom = d
        return
    if isinstance(b, BAnd):
        for a in b.args:
            if isinstance(a, BU):
                assume_raw(a)
        for a in b.args:
            if not isinstance(a, BU):
                assume_raw(a)
        return
    r = b.ev()
    if r is True:
        return
    if r is False:
        raise PathAbort()
    if isinstance(b, BOr):
        # drop false disjuncts (unit propagation)
        left = [a for a in b.args if a.ev() is not False]
        if len(left) == 1:
            return assume_raw(left[0])
        b = BOr(left)
    elif isinstance(b, BEq2) and not b.neg:
        propagate_eq(b)
        r = b.ev()
        if r is True:
            return
        if r is False:
            raise PathAbort()
    for v in b.vars():
        v.entangled = True
    p.cons.append(b)


def propagate_eq(b):
    i1, i2 = b.f1.inverse(), b.f2.inverse()
    n1 = n2 = 0
    for k, m in i1.items():
        m2 = i2.get(k, 0) & b.v2.dom
        m &= b.v1.dom
        if m and m2:
            n1 |= m
            n2 |= m2
    if not n1:
        raise PathAbort()
    b.v1.dom = n1
    b.v2.dom = n2


def decide(b):
    if b is True or b is False:
        return b
    p = P
    if p is None:
        raise RuntimeError('symbolic boolean outside a path')
    r = b.ev()
    if r is not None:
        return r
    if NOFORK:
        raise NoFork()
    if len(p.trace) < len(p.prefix):
        v = p.prefix[len(p.trace)]
        p.trace.append(v)
        assume_raw(b if v else snot(b))
        learn(p, b, v)
        return v
    if len(p.trace) >= p.forklimit:
        raise Hang()
    simple = isinstance(b, BU) and not b.var.entangled
    p.stats['decisions'] += 1
    if simple:
        t = f = True
    else:
        t = f = None
        m = p.model
        if m is not None and model_ok(p, m):
            if b.at(m):
                t = True
            else:
                f = True
        if t is None:
            t, mm = p.zcheck([b])
            if t:
                p.model = mm
            if t is None:
                t = True
        if f is None:
            f, mm = p.zcheck([snot(b)])
            if f and p.model is None:
                p.model = mm
            if f is None:
                f = True
        if not t and not f:
            raise PathAbort()
    if t and f:
        v = True
        p.alts.append(p.trace + [False])
        p.stats['forks'] += 1
    else:
        v = bool(t)
    p.trace.append(v)
    assume_raw(b if v else snot(b))
    learn(p, b, v)
    return v


def model_ok(p, m):
    for v in p.vars.values():
        i = m.get(v.name)
        if i is None or not v.dom >> i & 1:
            # repair unentangled variables freely
            if not v.entangled:
                m[v.name] = low(v.dom)
            else:
                return False
    for c in p.cons:
        if not c.at(m):
            return False
    return True


def choose(var, fn=None):
    """fork until fn(var) has a single value; return it"""
    if fn is None:
        fn = var.alpha.ident
    while True:
        d = var.dom
        i = low(d)
        val = fn.vals[i]
        m = fn.mask_eq(val)
        if decide(bu(var, m)):
            if isinstance(val, Raised):
                raise val.exc
            return val


def _self_copy(self, memo=None):
    return self


for _c in (Alphabet, Fn, Raised, Var, SymBool):
    _c.__copy__ = _self_copy
    _c.__deepcopy__ = _self_copy
