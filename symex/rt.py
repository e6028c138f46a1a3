"""Runtime of the instrumented code: every call, subscript, membership test,
`%`, f-string and display of the code under test goes through here."""
import builtins
import codecs
import copy
import functools
import hashlib
import html
import io
import itertools
import json
import operator
import os
import pathlib
import re
import shutil
import stat
import string as string_mod
import sys
import tempfile
import textwrap
import types
import typing
import unicodedata
import collections
import warnings
import linecache

from . import core, symre
from .core import (SymBool, decide, tobool, sand, sor, snot, tick, NoFork)
from .sym import (SymBase, SymStr, SymBytes, SymNum, UInt, SymInt, Opaque, SymHash,
                  UCh, mk, elems, sjoin, wrapfn, isstr, el_eq, el_in, sym, norm_idx)

SYM = (SymBase, SymBool)
MARK = '__symex_rt__'


def issym(x):
    return isinstance(x, SYM)


def has_sym(x, depth=3):
    if isinstance(x, SYM):
        return True
    t = type(x)
    if t in (str, int, bool, float, bytes) or x is None:
        return False
    if depth and t in (list, tuple, set, frozenset, dict):
        if len(x) > 300:
            return False
        if t is dict:
            return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
        return any(has_sym(v, depth - 1) for v in x)
    return False


def force(x):
    """concretise by forking over all feasible values"""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (SymStr, SymBytes, Opaque)):
        return x.force()
    if isinstance(x, SymNum):
        return x.__index__()
    t = type(x)
    if t is SymSet:
        return {force(v) for v in x.items}
    if t is list:
        return [force(v) for v in x] if has_sym(x) else x
    if t is tuple:
        return tuple(force(v) for v in x) if has_sym(x) else x
    if t in (set, frozenset):
        return t(force(v) for v in x) if has_sym(x) else x
    if t is dict:
        return {force(k): force(v) for k, v in x.items()} if has_sym(x) else x
    return x


# ------------------------------------------------------------ truth / ops

def eq(a, b):
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def seq_contains(xs, x):
    return sor([tobool(True if y is x else eq(y, x)) for y in xs])


def contains(x, c):
    """x in c (result may be symbolic)"""
    t = type(c)
    if t is str:
        if isinstance(x, SymStr):
            if len(x.el) == 1:
                return el_in(x.el[0], c)
            if len(x.el) == 0:
                return True
            return sym(c).contains(x)
        if isinstance(x, Opaque):
            return x.force() in c
        return x in c
    if t is SymStr:
        return c.contains(x)
    if t in (list, tuple):
        if isinstance(x, SYM) or any(isinstance(y, SYM) for y in c) or has_sym(x) or has_sym(c, 2):
            return seq_contains(c, x)
        return x in c
    if t in (set, frozenset, dict) or isinstance(c, (dict, collections.abc.KeysView)):
        if isinstance(x, SYM) or tainted(c) or has_sym(x):
            return seq_contains(list(c), x)
        return x in c
    if t is range and isinstance(x, SymNum):
        if c.step == 1:
            return sand([tobool(x >= c.start), tobool(x < c.stop)])
        return seq_contains(list(c), x)
    if t is SymSet:
        return seq_contains(c.items, x)
    r = x in c
    return r


def in_(x, c):
    return contains(x, c)


def not_in(x, c):
    return snot(contains(x, c))


def is_(a, b):
    if isinstance(a, SymBool) and (b is True or b is False or isinstance(b, SymBool)):
        return bool(a) == bool(b)
    if isinstance(b, SymBool) and (a is True or a is False):
        return bool(a) == bool(b)
    return a is b


def is_not(a, b):
    return not is_(a, b)


def not_(a):
    if isinstance(a, SymBool):
        return snot(a)
    return not a


def andor(is_and, thunks):
    """and/or over side-effect-free operands: keep symbolic when possible"""
    n = len(thunks)
    acc = None
    for i, th in enumerate(thunks):
        if acc is None:
            v = th()
            if isinstance(v, SymBool) and v.ev() is None:
                acc = [v]
                continue
            if i == n - 1:
                return v
            if bool(v) != is_and:
                return v
        else:
            core.NOFORK += 1
            try:
                v = th()
                if not isinstance(v, (bool, SymBool)):
                    v = _NOPE
            except (NoFork, Exception):
                v = _NOPE
            finally:
                core.NOFORK -= 1
            if v is _NOPE:
                # decide what we have, then go on in the ordinary way
                c = sand(acc) if is_and else sor(acc)
                d = decide(c)
                if d != is_and:
                    return d
                if i == n - 1:
                    return th()
                rest = andor(is_and, thunks[i:])
                return rest
            acc.append(v)
            if v is (not is_and):
                break
    return sand(acc) if is_and else sor(acc)


_NOPE = object()


# ------------------------------------------------------------ containers

_taint = {}


def tainted(d):
    r = _taint.get(id(d))
    return r is not None and r is d


def reset():
    _taint.clear()
    _lru.clear()


def find_key(d, k):
    """the stored key equal to k (deciding equalities), or _NOPE"""
    for kk in list(d):
        if kk is k or decide(tobool(eq(kk, k))):
            return kk
    return _NOPE


PLAIN = (str, int, bool, type(None))


def plain(vals):
    for v in vals:
        if type(v) not in PLAIN:
            return False
    return True


def unary(k):
    if isinstance(k, UInt):
        return k.var, k.fn
    if isinstance(k, SymStr) and len(k.el) == 1 and type(k.el[0]) is UCh:
        return k.el[0].var, k.el[0].fn
    return None


def getitem(o, k):
    t = type(o)
    if isinstance(o, dict):
        if isinstance(k, SYM) or tainted(o) or (type(k) is tuple and has_sym(k)):
            if t is dict and not tainted(o) and len(o) <= 600 and plain(o.values()):
                u = unary(k)
                if u is not None:
                    snap = dict(o)
                    key = ('dct', tuple((type(a), a, type(b), b) for a, b in snap.items()))
                    return wrapfn(u[0], u[1].map(key, lambda i: snap[i]))
            kk = find_key(o, k)
            if kk is _NOPE:
                if isinstance(o, collections.defaultdict) and o.default_factory:
                    v = o.default_factory()
                    setitem(o, k, v)
                    return v
                if isinstance(o, collections.Counter):
                    return 0
                raise KeyError(k if not isinstance(k, SYM) else 'symbolic')
            return dict.__getitem__(o, kk)
        return o[k]
    if (t is list or t is tuple) and isinstance(k, UInt) and plain(o):
        snap = tuple(o)
        return wrapfn(k.var, k.fn.map(('lst', snap, tuple(map(type, snap))), lambda i: snap[i]))
    if t is str:
        if isinstance(k, UInt):
            n = len(o)
            return wrapfn(k.var, k.fn.map(('idx', o), lambda i: o[i]))
        if isinstance(k, slice) and (issym(k.start) or issym(k.stop) or issym(k.step)):
            return o[slice(norm_idx(k.start), norm_idx(k.stop), norm_idx(k.step))]
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict):
        if isinstance(k, SYM) or tainted(o) or (type(k) is tuple and has_sym(k)):
            kk = find_key(o, k)
            if kk is _NOPE:
                _taint[id(o)] = o
                if isinstance(k, SymNum):
                    k = k.__index__()
                dict.__setitem__(o, k, v)
            else:
                dict.__setitem__(o, kk, v)
            return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and (isinstance(k, SYM) or tainted(o)):
        kk = find_key(o, k)
        if kk is _NOPE:
            raise KeyError('symbolic')
        del o[kk]
        return
    del o[k]


def mkdict(pairs):
    """dict display: list of (key, value) or (STAR, mapping)"""
    d = {}
    for k, v in pairs:
        if k is STAR:
            for kk in v:
                setitem(d, kk, getitem(v, kk))
        else:
            setitem(d, k, v)
    return d


STAR = object()


class SymSet:
    """a set some of whose members are symbolic (pairwise decided distinct)"""

    def __init__(self, it=()):
        self.items = []
        for x in it:
            self.add(x)

    def add(self, x):
        if not decide(tobool(seq_contains(self.items, x))):
            self.items.append(x)

    def discard(self, x):
        for y in self.items:
            if decide(tobool(eq(x, y))):
                self.items = [z for z in self.items if z is not y]
                return True
        return False

    def remove(self, x):
        if not self.discard(x):
            raise KeyError(x)

    def pop(self):
        return self.items.pop(0)

    def clear(self):
        self.items = []

    def copy(self):
        return SymSet(self.items)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return decide(tobool(seq_contains(self.items, x)))

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def _o(self, o):
        return list(o)

    def issubset(self, o):
        o = self._o(o)
        return sand([tobool(seq_contains(o, x)) for x in self.items])

    def issuperset(self, o):
        return sand([tobool(seq_contains(self.items, x)) for x in self._o(o)])

    def isdisjoint(self, o):
        return snot(sor([tobool(seq_contains(self.items, x)) for x in self._o(o)]))

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return sand([tobool(self <= o), len(self) < len(o)])

    def __gt__(self, o):
        return sand([tobool(self >= o), len(self) > len(o)])

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        return sand([tobool(self <= o), len(self) == len(o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return 0

    def union(self, *os_):
        r = SymSet(self.items)
        r.update(*os_)
        return r

    def intersection(self, *os_):
        r = self.items
        for o in os_:
            o = self._o(o)
            r = [x for x in r if decide(tobool(seq_contains(o, x)))]
        return SymSet(r)

    def difference(self, *os_):
        r = self.items
        for o in os_:
            o = self._o(o)
            r = [x for x in r if not decide(tobool(seq_contains(o, x)))]
        return SymSet(r)

    def __or__(self, o): return self.union(o)
    __ror__ = __or__
    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__
    def __sub__(self, o): return self.difference(o)
    def __rsub__(self, o): return SymSet(x for x in o if not decide(tobool(seq_contains(self.items, x))))


def mkset(items, frozen=False):
    items = list(items)
    if any(issym(x) or has_sym(x) for x in items):
        return SymSet(items)
    return frozenset(items) if frozen else set(items)


# ------------------------------------------------------------ strings

def to_str(x='', *a):
    if a:
        return str(force(x), *a)
    if isinstance(x, (SymStr, Opaque)):
        return x
    if isinstance(x, (UInt, SymInt)):
        return x.tostr()
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, BaseException) and has_sym(x.args):
        return to_str(x.args[0]) if len(x.args) == 1 else str(x)
    if has_sym(x):
        return str(force(x))
    return str(x)


def fmt(x, spec=''):
    if isinstance(x, SYM):
        if not spec:
            return to_str(x)
        if isinstance(x, SymNum) and spec in ('d',):
            return to_str(x)
        if isinstance(x, SymStr) and spec == 's':
            return x
        if isinstance(x, UInt):
            spec = force(spec)
            return wrapfn(x.var, x.fn.map(('fmt', spec), lambda v: format(v, spec)))
        return format(force(x), force(spec))
    return format(x, force(spec))


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 's':
                v = to_str(v)
            elif conv == 'r':
                v = repr(force(v))
            elif conv == 'a':
                v = ascii(force(v))
            out.append(fmt(v, spec))
    return sjoin('', out)


def format_str(f, a, k):
    f = force(f)
    if not has_sym(a) and not has_sym(k):
        return f.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in string_mod.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if not re.fullmatch(r'\w*', field) or (spec and '{' in spec):
            return f.format(*force(a), **force(k))
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        if conv == 'r':
            v = repr(force(v))
        elif conv == 's':
            v = to_str(v)
        out.append(fmt(v, spec or ''))
    return sjoin('', out)


def mod(a, b):
    if isinstance(a, str) and has_sym(b):
        toks = re.findall(r'%%|%[sd]|%0?\d*[xXo]|%0\d+d|%|[^%]+', a)
        if any(t == '%' for t in toks) or isinstance(b, dict):
            return a % force(b)
        args = list(b) if type(b) is tuple else [b]
        out = []
        for t in toks:
            if t == '%%':
                out.append('%')
            elif t in ('%s', '%d'):
                if not args:
                    raise TypeError('not enough arguments for format string')
                out.append(to_str(args.pop(0)))
            elif t[0] == '%':
                if not args:
                    raise TypeError('not enough arguments for format string')
                out.append(fmt(args.pop(0), t[1:]))
            else:
                out.append(t)
        if args:
            raise TypeError('not all arguments converted during string formatting')
        return sjoin('', out)
    return a % b


# ------------------------------------------------------------ builtins

def h_len(x):
    return len(x)


def h_ord(c):
    if isinstance(c, SymStr):
        if len(c.el) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c.el))
        e = c.el[0]
        if type(e) is UCh:
            return wrapfn(e.var, e.fn.map('ord', ord))
        return ord(c.force())
    return ord(force(c))


def h_chr(i):
    if isinstance(i, UInt):
        return wrapfn(i.var, i.fn.map('chr', chr))
    return chr(force(i))


def h_int(x=0, *a, **k):
    if isinstance(x, SymNum) and not a and not k:
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymStr) and len(x.el) == 1 and type(x.el[0]) is UCh:
        e = x.el[0]
        return wrapfn(e.var, e.fn.map(('int', repr(a), repr(k)), lambda c: int(c, *a, **k)))
    return int(force(x), *force(a), **k)


def h_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return tobool(x != 0)
    return bool(x)


def h_isinstance(o, c):
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(o, (SymStr, Opaque)):
        return any(x in (str, object, collections.abc.Sequence, collections.abc.Iterable, collections.abc.Hashable) for x in _flat(cs))
    if isinstance(o, SymBool):
        return any(x in (bool, int, object) for x in _flat(cs))
    if isinstance(o, SymNum):
        return any(x in (int, object) for x in _flat(cs))
    if isinstance(o, SymBytes):
        return any(x in (bytes, object) for x in _flat(cs))
    if isinstance(o, SymSet):
        return any(x in (set, object) for x in _flat(cs))
    if isinstance(o, symre.SymMatch):
        return any(x in (re.Match, object) for x in _flat(cs))
    return isinstance(o, c)


def _flat(cs):
    out = []
    for c in cs:
        if isinstance(c, tuple):
            out += _flat(c)
        elif isinstance(c, types.UnionType):
            out += list(typing.get_args(c))
        else:
            out.append(c)
    return out


def h_type(*a, **k):
    if len(a) == 1:
        o = a[0]
        if isinstance(o, (SymStr, Opaque)):
            return str
        if isinstance(o, SymBool):
            return bool
        if isinstance(o, SymNum):
            return int
        if isinstance(o, SymBytes):
            return bytes
    return type(*a, **k)


def h_repr(x):
    return repr(force(x))


def h_hash(x):
    return hash(force(x))


def h_print(*args, sep=' ', end='\n', file=None, flush=False):
    f = sys.stdout if file is None else file
    s = sjoin(' ' if sep is None else sep, [to_str(a) for a in args])
    f.write(s + ('\n' if end is None else end))


def h_range(*a):
    return range(*[norm_idx(x) for x in a])


def h_minmax(f):
    def g(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not has_sym(xs, 1):
            return f(*a, **wrapk(k))
        key = k.get('key')
        kf = (lambda v: call(key, v)) if key is not None else (lambda v: v)
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('empty')
        best, bk = xs[0], kf(xs[0])
        for x in xs[1:]:
            kx = kf(x)
            if decide(tobool(kx < bk if f is min else kx > bk)):
                best, bk = x, kx
        return best
    return g


def wrapf(f):
    """make a callable safe to be called from C with symbolic arguments"""
    if f is None or not callable(f) or isinstance(f, SYM):
        return f
    if isinstance(f, types.FunctionType) and MARK in f.__globals__:
        return f
    if isinstance(f, type) and f not in HANDLERS:
        return f
    return lambda *a, **k: call(f, *a, **k)


def wrapk(k):
    return {n: (wrapf(v) if n in ('key', 'func', 'function') else v) for n, v in k.items()}


def passthru(f):
    def g(*a, **k):
        return f(*[wrapf(x) if isinstance(x, (types.BuiltinFunctionType, types.MethodDescriptorType, type,
                                              types.FunctionType, types.MethodType, types.BuiltinMethodType,
                                              functools.partial)) else x for x in a], **wrapk(k))
    return g


def h_any(it):
    acc = []
    for x in it:
        if isinstance(x, SymBool):
            acc.append(x)
        elif x:
            return decide(tobool(sor(acc))) or True
    return sor(acc)


def h_all(it):
    acc = []
    for x in it:
        if isinstance(x, SymBool):
            acc.append(x)
        elif not x:
            return False
    return sand(acc)


def h_set(it=()):
    return mkset(it)


def h_frozenset(it=()):
    return mkset(it, True)


def h_dict(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    d = {}
    if hasattr(src, 'keys'):
        for kk in src.keys():
            setitem(d, kk, getitem(src, kk))
    else:
        for kk, v in src:
            setitem(d, kk, v)
    d.update(k)
    return d


def h_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def h_deepcopy(x, memo=None):
    if not has_sym(x, 6) and not (isinstance(x, dict) and tainted(x)):
        return copy.deepcopy(x)
    return _dc(x)


def _dc(x):
    if isinstance(x, SYM):
        return x
    t = type(x)
    if t is dict:
        d = {_dc(k): _dc(v) for k, v in x.items()}
        if tainted(x):
            _taint[id(d)] = d
        return d
    if t in (list, tuple):
        return t(_dc(v) for v in x)
    if t in (set, frozenset):
        return t(_dc(v) for v in x)
    return copy.deepcopy(x)


def h_copy(x):
    if isinstance(x, SYM):
        return x
    r = copy.copy(x)
    if isinstance(x, dict) and tainted(x):
        _taint[id(r)] = r
    return r


def h_getattr(o, n, *d):
    return getattr(o, force(n), *d)


def uni(f):
    def g(c, *a):
        if isinstance(c, SymStr) and len(c.el) == 1 and type(c.el[0]) is UCh:
            e = c.el[0]
            return wrapfn(e.var, e.fn.map(('uni', f.__name__, repr(a)), lambda v: f(v, *a)))
        return f(force(c), *force(a))
    return g


def h_normalize(form, s):
    if isinstance(s, SymStr) and all(type(e) is not str and False or True for e in s.el):
        return unicodedata.normalize(form, s.force())
    return unicodedata.normalize(form, force(s))


def h_html_escape(s, quote=True):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if quote:
        s = s.replace('"', '&quot;').replace("'", '&#x27;')
    return s


def hashctor(name):
    def g(data=b'', **k):
        return SymHash(name, data)
    return g


def h_hashnew(name, data=b'', **k):
    return SymHash(name, data)


def h_bytes(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    if a and isinstance(a[0], SymBytes):
        return a[0]
    return bytes(*force(a), **force(k))


def h_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=reverse)


def h_reduce(f, *a):
    return functools.reduce(wrapf(f), *a)


def h_divmod(a, b):
    return (a // b, a % b)


def h_abs(a):
    return abs(a)


def h_re(fn):
    """module-level re.<fn>"""
    real = getattr(re, fn)

    def g(*a, **k):
        if has_sym(a, 1) or has_sym(k, 1) or (fn in ('sub', 'subn') and callable(a[1] if len(a) > 1 else k.get('repl'))):
            return re_dispatch(fn, None, a, k)
        return real(*a, **k)
    return g


def re_dispatch(fn, pat, a, k):
    """pat is a compiled pattern or None (then the first argument is)"""
    names = {'match': ['string', 'flags'], 'fullmatch': ['string', 'flags'], 'search': ['string', 'flags'],
             'findall': ['string', 'flags'], 'finditer': ['string', 'flags'],
             'sub': ['repl', 'string', 'count', 'flags'], 'subn': ['repl', 'string', 'count', 'flags'],
             'split': ['string', 'maxsplit', 'flags'], 'escape': []}[fn] if pat is None else \
            {'match': ['string', 'pos', 'endpos'], 'fullmatch': ['string', 'pos', 'endpos'],
             'search': ['string', 'pos', 'endpos'], 'findall': ['string', 'pos', 'endpos'],
             'finditer': ['string', 'pos', 'endpos'], 'sub': ['repl', 'string', 'count'],
             'subn': ['repl', 'string', 'count'], 'split': ['string', 'maxsplit']}[fn]
    a = list(a)
    if fn == 'escape':
        return re.escape(force(a[0]))
    if pat is None:
        pat = a.pop(0) if a else k.pop('pattern')
    kw = dict(zip(names, a))
    kw.update(k)
    s = kw.pop('string')
    if not isstr(s):
        raise TypeError('expected string or bytes-like object, got ' + type(s).__name__)
    for x in ('pos', 'endpos', 'count', 'maxsplit', 'flags'):
        if x in kw and issym(kw[x]):
            kw[x] = force(kw[x])
    if fn in ('match', 'fullmatch'):
        return symre.do_match(pat, s, mode='full' if fn == 'fullmatch' else 'match', **kw)
    if fn == 'search':
        return symre.do_search(pat, s, **kw)
    if fn == 'findall':
        return symre.do_findall(pat, s, **kw)
    if fn == 'finditer':
        return symre.do_iter(pat, s, **kw)
    if fn in ('sub', 'subn'):
        r = symre.do_subn(pat, kw.pop('repl'), s, call=call, **kw)
        return r if fn == 'subn' else r[0]
    if fn == 'split':
        return symre.do_split(pat, s, **kw)


HANDLERS = {
    len: h_len, ord: h_ord, chr: h_chr, int: h_int, str: to_str, bool: h_bool, isinstance: h_isinstance,
    type: h_type, repr: h_repr, hash: h_hash, print: h_print, range: h_range, min: h_minmax(min),
    max: h_minmax(max), any: h_any, all: h_all, set: h_set, frozenset: h_frozenset, dict: h_dict, sum: h_sum,
    sorted: h_sorted, functools.reduce: h_reduce, divmod: h_divmod, abs: h_abs, format: fmt,
    map: passthru(map), filter: passthru(filter), zip: zip, enumerate: enumerate, reversed: reversed,
    list: list, tuple: tuple, iter: iter, next: next, getattr: h_getattr, bytes: h_bytes,
    copy.deepcopy: h_deepcopy, copy.copy: h_copy,
    hashlib.sha1: hashctor('sha1'), hashlib.md5: hashctor('md5'), hashlib.sha256: hashctor('sha256'),
    hashlib.sha512: hashctor('sha512'), hashlib.sha224: hashctor('sha224'), hashlib.sha384: hashctor('sha384'),
    hashlib.blake2b: hashctor('blake2b'), hashlib.blake2s: hashctor('blake2s'), hashlib.new: h_hashnew,
    hashlib.sha3_256: hashctor('sha3_256'),
    unicodedata.category: uni(unicodedata.category), unicodedata.combining: uni(unicodedata.combining),
    unicodedata.bidirectional: uni(unicodedata.bidirectional), unicodedata.name: uni(unicodedata.name),
    unicodedata.decimal: uni(unicodedata.decimal), unicodedata.digit: uni(unicodedata.digit),
    unicodedata.numeric: uni(unicodedata.numeric),
    html.escape: h_html_escape,
    issubclass: issubclass, id: id, callable: callable, hasattr: hasattr, setattr: setattr, object: object,
}
for _n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'subn', 'split', 'escape'):
    HANDLERS[getattr(re, _n)] = h_re(_n)
for _n in dir(itertools):
    _f = getattr(itertools, _n)
    if isinstance(_f, type):
        HANDLERS[_f] = passthru(_f)
HANDLERS[itertools.chain.from_iterable] = itertools.chain.from_iterable
for _n, _g in (('eq', eq), ('ne', lambda a, b: snot(eq(a, b))), ('contains', lambda a, b: contains(b, a)),
               ('getitem', getitem), ('not_', not_)):
    HANDLERS[getattr(operator, _n)] = _g
for _n in ('add', 'sub', 'mul', 'lt', 'le', 'gt', 'ge', 'and_', 'or_', 'concat', 'itemgetter', 'attrgetter',
           'iadd', 'is_', 'is_not', 'truth', 'xor', 'mod', 'index'):
    HANDLERS[getattr(operator, _n)] = (mod if _n == 'mod' else is_ if _n == 'is_' else is_not if _n == 'is_not'
                                       else getattr(operator, _n))
HANDLERS[typing.cast] = lambda t, v: v
HANDLERS[collections.deque] = collections.deque
HANDLERS[collections.OrderedDict] = h_dict
HANDLERS[warnings.warn] = lambda *a, **k: None

IDHANDLERS = {}      # id(callable) -> handler, for file system stubs (filled by fs)

LISTM = {'append', 'extend', 'insert', 'pop', 'clear', 'copy', 'reverse', 'sort', '__len__', '__iter__',
         'appendleft', 'popleft', 'extendleft', 'rotate'}


_lru = {}


def lru_key(x):
    """arguments of a cached function must be hashable"""
    if type(x) is tuple:
        for y in x:
            lru_key(y)
    elif type(x) in (list, dict, set, bytearray) or isinstance(x, SymSet):
        raise TypeError("unhashable type: '" + type(x).__name__ + "'")
    elif not isinstance(x, SYM):
        hash(x)


def lru_call(f, a, k):
    """functools.lru_cache.  A stored result is used when the arguments are
    the same terms or equal constants; arguments that are merely possibly
    equal count as different"""
    lru_key(a)
    lru_key(tuple(k.values()))
    key = (a, tuple(k.items()))
    st = _lru.setdefault(id(f), [f, []])[1]
    for i, (kk, v) in enumerate(st):
        if kk[0] is a or (len(kk[0]) == len(a) and len(kk[1]) == len(k) and
                          eq(kk[0], a) is True and eq(kk[1], key[1]) is True):
            st.append(st.pop(i))
            return v
    v = call(f.__wrapped__, *a, **k)
    ms = f.cache_parameters()['maxsize']
    if ms is None or ms > 0:
        st.append((key, v))
        if ms is not None and len(st) > ms:
            del st[0]
    return v


def call(f, *a, **k):
    tick()
    t = type(f)
    if t is types.FunctionType:
        if MARK in f.__globals__:
            return f(*a, **k)
    elif t is types.MethodType:
        s = f.__self__
        if isinstance(s, SYM) or isinstance(s, (SymSet, symre.SymMatch, SymHash)):
            return f(*a, **k)
        g = f.__func__
        if type(g) is types.FunctionType and MARK in g.__globals__:
            return f(*a, **k)
        h = IDHANDLERS.get(id(g))
        if h is not None:
            return h(s, *a, **k)
        if getattr(g, '__symex_stub__', False) or getattr(type(s), '__symex_stub__', False):
            return f(*a, **k)
    elif isinstance(f, types.BuiltinFunctionType):
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            return builtin_method(f, s, a, k)
    elif t is type or isinstance(f, type):
        if getattr(f, '__symex_stub__', False):
            return f(*a, **k)
        m = sys.modules.get(f.__module__)
        if m is not None and MARK in m.__dict__:
            return f(*a, **k)
    elif t is functools._lru_cache_wrapper:
        return lru_call(f, a, k)
    elif t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *f.args, *a, **kk)
    elif t in (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType):
        if a and isinstance(a[0], SYM):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], str) and (has_sym(a[1:]) or f.__name__ == 'join'):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        if a and t is types.MethodDescriptorType:
            return call(getattr(a[0], f.__name__), *a[1:], **k) if f.__objclass__ in (str, list, dict, set) else f(*force(a), **force(k))
    h = IDHANDLERS.get(id(f))
    if h is not None:
        return h(*a, **k)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if isinstance(f, (operator.itemgetter, operator.attrgetter)):
        return f(*a, **k)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*a, **k)
    if not has_sym(a) and not has_sym(k):
        # callbacks passed to foreign code may receive symbolic data later
        return f(*a, **k)
    if not callable(f):
        return f(*a, **k)
    cm = getattr(type(f), '__call__', None)
    if isinstance(cm, types.FunctionType) and MARK in cm.__globals__:
        return f(*a, **k)
    core.P.notes.add('concretised at ' + getattr(f, '__qualname__', repr(f)))
    return f(*force(a), **force(k))


def builtin_method(f, s, a, k):
    name = f.__name__
    t = type(s)
    if t is functools._lru_cache_wrapper and name == 'cache_clear':
        _lru.pop(id(s), None)
        return
    if t is str:
        if name == 'join':
            it = list(a[0])
            if any(isinstance(x, SYM) for x in it):
                return sjoin(s, it)
            return s.join(it)
        if name == 'format':
            return format_str(s, a, k)
        if not (has_sym(a) or has_sym(k)):
            return f(*a, **k)
        if name in ('startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'replace', 'split',
                    'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'removeprefix',
                    'removesuffix', 'ljust', 'rjust', 'center', 'zfill', '__contains__', '__eq__', '__add__',
                    '__getitem__', '__mul__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
            if name in ('find', 'index') and len(a) == 1 and isinstance(a[0], SymStr) and len(a[0].el) == 1 \
                    and type(a[0].el[0]) is UCh:
                e = a[0].el[0]
                return wrapfn(e.var, e.fn.map(('strm', name, s), lambda v: getattr(s, name)(v)))
            r = getattr(sym(s), name)(*a, **k)
            return r
        return f(*force(a), **force(k))
    if t is type and s is str and name == 'maketrans':
        return str.maketrans(*force(a))
    if isinstance(s, dict):
        return dict_method(f, s, name, a, k)
    if isinstance(s, list) or isinstance(s, collections.deque):
        if name in LISTM:
            if name == 'sort':
                return f(*a, **wrapk(k))
            if name in ('pop', 'insert') and a:
                a = (norm_idx(a[0]),) + tuple(a[1:])
            return f(*a, **k)
        if name in ('index', 'count', 'remove', '__contains__') and (has_sym(a) or has_sym(s, 2)):
            x = a[0]
            if name == '__contains__':
                return decide(tobool(seq_contains(s, x)))
            if name == 'count':
                return sum(1 for y in s if decide(tobool(eq(y, x))))
            for i, y in enumerate(s):
                if len(a) > 1 and i < norm_idx(a[1]):
                    continue
                if decide(tobool(eq(y, x))):
                    if name == 'index':
                        return i
                    del s[i]
                    return None
            raise ValueError('not in list')
        return f(*a, **k)
    if t is tuple:
        if name in ('index', 'count') and (has_sym(a) or has_sym(s, 2)):
            return builtin_method(getattr(list(s), name), list(s), a, k)
        return f(*a, **k)
    if t in (set, frozenset):
        if has_sym(a) or any(isinstance(x, SymSet) for x in a):
            if name in ('add', 'discard', 'remove', 'update'):
                return set_mutate(f, s, name, a)
            return getattr(SymSet(s), name)(*a, **k)
        return f(*a, **k)
    if t is re.Pattern:
        if name in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'subn', 'split'):
            if has_sym(a, 1) or has_sym(k, 1) or (name in ('sub', 'subn') and callable(a[0] if a else k.get('repl'))):
                return re_dispatch(name, s, a, k)
        return f(*a, **k)
    if isinstance(s, type):       # classmethods such as dict.fromkeys, str.maketrans, int.from_bytes
        if s is dict and name == 'fromkeys':
            d = {}
            for x in a[0]:
                setitem(d, x, a[1] if len(a) > 1 else None)
            return d
        if s is itertools.chain:
            return f(*a, **k)
        if name in ('__new__', '__init__', '__setattr__'):
            return f(*a, **k)
    if name in ('__setattr__', '__init__', 'send', 'throw', 'close', '__next__', '__iter__'):
        return f(*a, **k)
    if isinstance(s, types.GeneratorType):
        return f(*a, **k)
    h = IDHANDLERS.get(id(f))
    if h is not None:
        return h(*a, **k)
    if has_sym(a) or has_sym(k):
        return f(*force(a), **force(k))
    return f(*a, **k)


def set_mutate(f, s, name, a):
    # a plain set receiving a symbolic member: keep it a set, but make sure
    # that it stays duplicate free, and mark it
    xs = a[0] if name == 'update' else [a[0]]
    for x in xs:
        found = _NOPE
        for y in list(s):
            if decide(tobool(eq(x, y))):
                found = y
                break
        if name in ('add', 'update'):
            if found is _NOPE:
                s.add(x)
                _taint[id(s)] = s
        elif found is not _NOPE:
            s.discard(found)
        elif name == 'remove':
            raise KeyError('symbolic')


def dict_method(f, s, name, a, k):
    if name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__', '__setitem__', '__delitem__') and a and \
            (isinstance(a[0], SYM) or tainted(s) or has_sym(a[0])):
        kk = find_key(s, a[0])
        if name == 'get':
            return (a[1] if len(a) > 1 else k.get('default')) if kk is _NOPE else dict.__getitem__(s, kk)
        if name == '__contains__':
            return kk is not _NOPE
        if name == '__getitem__':
            return getitem(s, a[0])
        if name == '__setitem__':
            return setitem(s, a[0], a[1])
        if name == '__delitem__':
            return delitem(s, a[0])
        if name == 'setdefault':
            if kk is _NOPE:
                v = a[1] if len(a) > 1 else None
                setitem(s, a[0], v)
                return v
            return dict.__getitem__(s, kk)
        if kk is _NOPE:
            if len(a) > 1:
                return a[1]
            raise KeyError('symbolic')
        return dict.pop(s, kk)
    if name == 'update':
        if a and (tainted(a[0]) or tainted(s) or has_sym(a[0])):
            src = a[0]
            for kk in (src.keys() if hasattr(src, 'keys') else [p[0] for p in src]):
                setitem(s, kk, getitem(src, kk) if hasattr(src, 'keys') else dict(src)[kk])
            return None
        return f(*a, **k)
    if name == 'copy':
        r = f()
        if tainted(s):
            _taint[id(r)] = r
        return r
    return f(*a, **k)
