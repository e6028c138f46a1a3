"""Symbolic strings and integers built on core."""
import codecs
import itertools
import unicodedata
import z3
from . import core
from .core import (SymBool, BU, BZ, BEq2, bu, sand, sor, snot, decide, Raised,
                   low, choose, tobool)


class SymBase:
    """marker base class of non-boolean symbolic values"""
    __slots__ = ()


class UCh:
    """one character that is a function of one variable"""
    __slots__ = ('var', 'fn')

    def __init__(self, var, fn):
        self.var = var
        self.fn = fn


class ZCh:
    """one decimal digit given by a z3 Int term (0..9)"""
    __slots__ = ('e', 'vs')

    def __init__(self, e, vs=()):
        self.e = e
        self.vs = vs


# ------------------------------------------------------------ elements

def el_conc(e):
    """concrete char of an element or None"""
    t = type(e)
    if t is str:
        return e
    if t is UCh:
        d = e.var.dom
        if d & (d - 1) == 0:
            return e.fn.vals[low(d)]
    return None


def el_force(e):
    t = type(e)
    if t is str:
        return e
    if t is UCh:
        return choose(e.var, e.fn)
    for dg in '0123456789':
        if dg == '9' or decide(BZ(e.e == int(dg), e.vs)):
            return dg


def el_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is str:
        if tb is str:
            return a == b
        a, b, ta, tb = b, a, tb, ta
    if ta is UCh:
        if tb is str:
            return bu(a.var, a.fn.mask_eq(b))
        if tb is UCh:
            if a.var is b.var:
                if a.fn is b.fn:
                    return True
                m = 0
                for i, (x, y) in enumerate(zip(a.fn.vals, b.fn.vals)):
                    if x == y:
                        m |= 1 << i
                return bu(a.var, m)
            r = BEq2(a.var, a.fn, b.var, b.fn)
            x = r.ev()
            return r if x is None else x
        return el_eq(el_force(b), a)
    # ZCh
    if tb is str:
        if b in '0123456789' and len(b) == 1:
            return BZ(a.e == ord(b) - 48, a.vs)
        return False
    if tb is ZCh:
        if a.e.eq(b.e):
            return True
        return BZ(a.e == b.e, a.vs + b.vs)
    return el_eq(el_force(a), b)


def el_test(e, key, pred):
    """predicate on a char, cached under key"""
    t = type(e)
    if t is str:
        return bool(pred(e))
    if t is UCh:
        return bu(e.var, e.fn.mask(("p", key), lambda v: len(v) == 1 and pred(v)))
    ds = [d for d in range(10) if pred(chr(48 + d))]
    if len(ds) == 10:
        return True
    return sor([BZ(e.e == d, e.vs) for d in ds])


def el_in(e, chars):
    if type(e) is str:
        return e in chars
    key = ('in', chars if isinstance(chars, (str, frozenset)) else tuple(chars))
    cs = frozenset(chars)
    return el_test(e, key, lambda v: v in cs)


def wrapfn(var, fn):
    """turn fn(var) into the right kind of value, forking where the kind of
    result (exception, type, length) differs between members of the domain"""
    while True:
        d = var.dom
        first = fn.vals[low(d)]
        kind = kindof(first)
        m = fn.mask(('kind', kind), lambda v: kindof(v) == kind)
        if d & ~m:
            if not decide(bu(var, m)):
                continue
            d = var.dom
        break
    if kind[0] == 'raise':
        raise first.exc
    if not d & ~fn.mask_eq(first):
        return first
    if kind[0] == 'str':
        n = kind[1]
        if n == 1:
            return SymStr((UCh(var, fn),))
        return SymStr(tuple(
            UCh(var, fn.map(('ix', j, n), lambda v, j=j: v[j] if isinstance(v, str) and len(v) == n else '\0'))
            for j in range(n)))
    if kind[0] == 'int':
        return UInt(var, fn)
    if kind[0] == 'bool':
        return bu(var, fn.mask('true', lambda v: v is True))
    return choose(var, fn)


def kindof(v):
    if isinstance(v, Raised):
        return ('raise', type(v.exc).__name__)
    t = type(v)
    if t is str:
        return ('str', len(v))
    if t is bool:
        return ('bool',)
    if t is int:
        return ('int',)
    return ('other', t.__name__)


def mk(elems):
    """SymStr or plain str from a sequence of elements"""
    out = []
    conc = True
    for e in elems:
        t = type(e)
        if t is UCh:
            d = e.var.dom
            if d & (d - 1) == 0:
                e = e.fn.vals[low(d)]
            else:
                conc = False
        elif t is ZCh:
            conc = False
        out.append(e)
    if conc:
        return ''.join(out)
    return SymStr(tuple(out))


def elems(s):
    t = type(s)
    if t is SymStr:
        return s.el
    if isinstance(s, str):
        return tuple(s)
    if isinstance(s, Opaque):
        return tuple(s.force())
    raise TypeError('expected str, got ' + type(s).__name__)


def isstr(x):
    return isinstance(x, (str, SymStr, Opaque))


WS = frozenset(c for c in map(chr, range(0x110000)) if c.isspace())


def norm_idx(i):
    if i is None:
        return None
    if isinstance(i, int):
        return int(i)
    return i.__index__()


class SymStr(SymBase):
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    # -------- protocol
    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return bool(self.el)

    def __iter__(self):
        for e in self.el:
            yield mk((e,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(norm_idx(i.start), norm_idx(i.stop), norm_idx(i.step))
            return mk(self.el[i])
        i = norm_idx(i)
        n = len(self.el)
        if i >= n or i < -n:
            raise IndexError('string index out of range')
        return mk((self.el[i],))

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(self.el + elems(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(elems(o) + self.el)

    def __mul__(self, n):
        return mk(self.el * norm_idx(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return False
        if not isstr(o):
            return NotImplemented
        oe = elems(o)
        if len(oe) != len(self.el):
            return False
        return sand([el_eq(a, b) for a, b in zip(self.el, oe)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return 0x5eed

    def _cmp(self, o):
        """-1,0,1 by deciding char by char; single chars stay masks"""
        oe = elems(o)
        for a, b in zip(self.el, oe):
            if decide(tobool(el_eq(a, b))):
                continue
            if type(a) is UCh and type(b) is str:
                lt = el_test(a, ('lt', b), lambda v: v < b)
            elif type(b) is UCh and type(a) is str:
                lt = el_test(b, ('gt', a), lambda v: v > a)
            else:
                lt = el_force(a) < el_force(b)
            return -1 if decide(tobool(lt)) else 1
        return (len(self.el) > len(oe)) - (len(self.el) < len(oe))

    def _ord(self, o, key, op):
        if not isstr(o):
            return NotImplemented
        if len(self.el) == 1 and isinstance(o, str) and type(self.el[0]) is UCh:
            return el_test(self.el[0], (key, o), lambda v: op(v, o))
        c = self._cmp(o)
        return op(c, 0)

    def __lt__(self, o): return self._ord(o, '<', lambda a, b: a < b)
    def __le__(self, o): return self._ord(o, '<=', lambda a, b: a <= b)
    def __gt__(self, o): return self._ord(o, '>', lambda a, b: a > b)
    def __ge__(self, o): return self._ord(o, '>=', lambda a, b: a >= b)

    def __contains__(self, sub):
        return decide(tobool(self.contains(sub)))

    def contains(self, sub):
        if not isstr(sub):
            raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
        se = elems(sub)
        n, m = len(self.el), len(se)
        if m == 0:
            return True
        return sor([self._match_at(i, se) for i in range(n - m + 1)])

    def _match_at(self, i, se):
        if i < 0 or i + len(se) > len(self.el):
            return False
        return sand([el_eq(self.el[i + j], se[j]) for j in range(len(se))])

    def force(self):
        return ''.join(el_force(e) for e in self.el)

    def __str__(self):
        # only reached from un-instrumented code
        return self.force()

    def __repr__(self):
        if core.P is None:
            return 'SymStr<%d>' % len(self.el)
        return repr(self.force())

    def __format__(self, spec):
        return format(self.force(), spec)

    def __mod__(self, args):
        return self.force() % args

    # -------- per char maps
    def _map(self, key, f):
        out = []
        for e in self.el:
            if type(e) is str:
                out.extend(f(e))
            elif type(e) is ZCh:
                out.append(e)
            else:
                out.extend(elems(wrapfn(e.var, e.fn.map(('m', key), f))))
        return mk(out)

    def lower(self): return self._map('lower', str.lower)
    def upper(self): return self._map('upper', str.upper)
    def casefold(self): return self._map('casefold', str.casefold)
    def swapcase(self): return self._map('swapcase', str.swapcase)

    def capitalize(self):
        if not self.el:
            return ''
        a, b = mk(self.el[:1]), mk(self.el[1:])
        return a.title() + b.lower() if isinstance(a, str) else a._map('title', str.title) + b.lower()

    def title(self): return self.force().title()
    def expandtabs(self, *a): return self.force().expandtabs(*a)

    def translate(self, table):
        def f(c):
            return c.translate(table)
        return self._map(('tr', id(table), repr(table)), f)

    # -------- predicates
    def _all(self, key, f):
        if not self.el:
            return f('')
        return sand([el_test(e, key, f) for e in self.el])

    def isspace(self): return self._all('isspace', str.isspace)
    def isalnum(self): return self._all('isalnum', str.isalnum)
    def isalpha(self): return self._all('isalpha', str.isalpha)
    def isdigit(self): return self._all('isdigit', str.isdigit)
    def isdecimal(self): return self._all('isdecimal', str.isdecimal)
    def isnumeric(self): return self._all('isnumeric', str.isnumeric)
    def isascii(self): return self._all('isascii', str.isascii)
    def isprintable(self): return self._all('isprintable', str.isprintable)
    def isidentifier(self): return self.force().isidentifier()
    def istitle(self): return self.force().istitle()

    def islower(self):
        return sand([sor([el_test(e, 'hascase', lambda c: c.islower()) for e in self.el]),
                     snot(sor([el_test(e, 'upt', lambda c: c.isupper() or unicodedata.category(c) == 'Lt') for e in self.el]))])

    def isupper(self):
        return sand([sor([el_test(e, 'hascaseu', lambda c: c.isupper()) for e in self.el]),
                     snot(sor([el_test(e, 'lowt', lambda c: c.islower() or unicodedata.category(c) == 'Lt') for e in self.el]))])

    # -------- searching
    def _range(self, start, end):
        n = len(self.el)
        s, e, _ = slice(norm_idx(start), norm_idx(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        if not isstr(sub):
            raise TypeError('must be str')
        se = elems(sub)
        s, e = self._range(start, end)
        if start is not None and norm_idx(start) > len(self.el):
            return -1
        for i in range(s, e - len(se) + 1):
            if decide(tobool(self._match_at(i, se))):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        se = elems(sub)
        s, e = self._range(start, end)
        for i in range(e - len(se), s - 1, -1):
            if decide(tobool(self._match_at(i, se))):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        se = elems(sub)
        s, e = self._range(start, end)
        if not se:
            return e - s + 1
        n, i = 0, s
        while i <= e - len(se):
            if decide(tobool(self._match_at(i, se))):
                n += 1
                i += len(se)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(*self._range(start, end))]
        if isinstance(p, tuple):
            return sor([tobool(sstartswith(s, q)) for q in p])
        return sstartswith(s, p)

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(*self._range(start, end))]
        if isinstance(p, tuple):
            return sor([tobool(sendswith(s, q)) for q in p])
        return sendswith(s, p)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    # -------- stripping
    def _stripset(self, e, chars):
        if chars is None:
            return el_test(e, 'isspace', str.isspace)
        if isinstance(chars, str):
            return el_in(e, chars)
        return sor([el_eq(e, c) for c in elems(chars)])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.el) and decide(tobool(self._stripset(self.el[i], chars))):
            i += 1
        return mk(self.el[i:])

    def rstrip(self, chars=None):
        i = len(self.el)
        while i > 0 and decide(tobool(self._stripset(self.el[i - 1], chars))):
            i -= 1
        return mk(self.el[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if isinstance(r, SymStr) else sym(r).rstrip(chars) if isinstance(chars, SymStr) else r.rstrip(chars)

    # -------- splitting
    def replace(self, old, new, count=-1):
        count = norm_idx(count)
        oe, ne = elems(old), elems(new)
        out = []
        i, n, done = 0, len(self.el), 0
        if not oe:
            for k, e in enumerate(self.el):
                if count < 0 or done < count:
                    out.extend(ne)
                    done += 1
                out.append(e)
            if count < 0 or done < count:
                out.extend(ne)
            return mk(out)
        if len(oe) == 1 and len(ne) == 1 and count < 0 and type(oe[0]) is str and type(ne[0]) is str:
            o, w = oe[0], ne[0]
            return self._map(('rep', o, w), lambda c: w if c == o else c)
        while i < n:
            if (count < 0 or done < count) and i + len(oe) <= n and decide(tobool(self._match_at(i, oe))):
                out.extend(ne)
                i += len(oe)
                done += 1
            else:
                out.append(self.el[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = norm_idx(maxsplit)
        out = []
        if sep is None:
            i, n = 0, len(self.el)
            sp = lambda e: decide(tobool(el_test(e, 'isspace', str.isspace)))
            while True:
                while i < n and sp(self.el[i]):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self.el[i:]).rstrip())
                    return out
                j = i
                while j < n and not sp(self.el[j]):
                    j += 1
                out.append(mk(self.el[i:j]))
                i = j
            return out
        se = elems(sep)
        if not se:
            raise ValueError('empty separator')
        i = last = 0
        while i <= len(self.el) - len(se):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if decide(tobool(self._match_at(i, se))):
                out.append(mk(self.el[last:i]))
                i += len(se)
                last = i
            else:
                i += 1
        out.append(mk(self.el[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if norm_idx(maxsplit) < 0:
            return self.split(sep)
        if sep is None:
            return self.force().rsplit(sep, maxsplit)
        parts = []
        rest = self
        while len(parts) < maxsplit:
            i = sym(rest).rfind(sep)
            if i < 0:
                break
            parts.append(rest[i + len(sep):])
            rest = rest[:i]
        parts.append(rest)
        return parts[::-1]

    def splitlines(self, keepends=False):
        out, cur = [], []
        i, n = 0, len(self.el)
        brk = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
        while i < n:
            e = self.el[i]
            if decide(tobool(el_in(e, brk))):
                end = [e]
                if decide(tobool(el_eq(e, '\r'))) and i + 1 < n and decide(tobool(el_eq(self.el[i + 1], '\n'))):
                    i += 1
                    end.append(self.el[i])
                out.append(mk(cur + end if keepends else cur))
                cur = []
            else:
                cur.append(e)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def join(self, it):
        return sjoin(self, it)

    def ljust(self, w, fill=' '): return mk(self.el + elems(fill) * max(0, norm_idx(w) - len(self.el)))
    def rjust(self, w, fill=' '): return mk(elems(fill) * max(0, norm_idx(w) - len(self.el)) + self.el)

    def center(self, w, fill=' '):
        pad = len(('x' * len(self.el)).center(norm_idx(w))) - len(self.el)
        left = len('x'.center(1)) and ('x' * len(self.el)).center(norm_idx(w), '\0').find('x')
        return mk(elems(fill) * left + self.el + elems(fill) * (pad - left))

    def zfill(self, w):
        return self.rjust(w, '0')

    def format(self, *a, **k):
        return self.force().format(*a, **k)

    def encode(self, encoding='utf-8', errors='strict'):
        name = codecs.lookup(encoding).name
        codecs.lookup_error(errors)
        if name == 'utf-8':
            return SymBytes(self, 'utf-8', errors)
        if ' '.encode(name) != b' ':
            return self.force().encode(encoding, errors)
        out = []
        for e in self.el:
            if type(e) is not str:
                if decide(tobool(mk((e,)) < '\x80')):
                    out.append(e)
                    continue
                e = el_force(e)
            out.extend(e.encode(name, errors).decode('latin-1'))
        s = mk(out)
        return s.encode('latin-1') if type(s) is str else SymBytes(s, 'latin-1', errors)


def sym(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


def sstartswith(s, p):
    if not isstr(p):
        raise TypeError('startswith first arg must be str or a tuple of str, not ' + type(p).__name__)
    s = sym(s)
    return s._match_at(0, elems(p))


def sendswith(s, p):
    if not isstr(p):
        raise TypeError('endswith first arg must be str or a tuple of str, not ' + type(p).__name__)
    s = sym(s)
    return s._match_at(len(s.el) - len(p), elems(p))


def sjoin(sep, it):
    out = []
    first = True
    se = elems(sep)
    n = 0
    for x in it:
        if not isstr(x):
            raise TypeError('sequence item %d: expected str instance, %s found' % (n, type(x).__name__))
        if not first:
            out.extend(se)
        first = False
        n += 1
        if isinstance(x, str):
            out.extend(x)
        else:
            out.extend(elems(x))
    return mk(out)


# ------------------------------------------------------------ bytes / digests

class SymBytes(SymBase):
    """encoding of a symbolic string; opaque unless inspected"""
    __slots__ = ('s', 'enc', 'err')

    def __init__(self, s, enc, err='strict'):
        self.s, self.enc, self.err = s, enc, err

    def force(self):
        return (self.s.force() if isinstance(self.s, SymStr) else self.s).encode(self.enc, self.err)

    def decode(self, enc='utf-8', errors='strict'):
        enc = codecs.lookup(enc).name
        if enc in ('utf-8', 'utf-8-sig') and codecs.lookup(self.enc).name == 'utf-8':
            es = elems(self.s)
            if enc == 'utf-8-sig' and es and decide(tobool(el_eq(es[0], '\ufeff'))):
                es = es[1:]
            out = []
            for e in es:
                if type(e) is str and '\udc80' <= e <= '\udcff':
                    out.extend(e.encode('utf-8', 'surrogateescape').decode('utf-8', errors))
                else:
                    out.append(e)
            return mk(out)
        return self.force().decode(enc, errors)

    def __eq__(self, o):
        if isinstance(o, SymBytes) and o.enc == self.enc:
            return self.s == o.s
        if isinstance(o, (bytes, bytearray)):
            return self.force() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return 0x5eed

    def __len__(self):
        # number of bytes of each char: fork on the widths
        n = 0
        for e in elems(self.s):
            if type(e) is UCh:
                w = wrapfn(e.var, e.fn.map(('enc', self.enc), lambda c: len(c.encode(self.enc))))
                n += w if isinstance(w, int) else w.__index__()
            else:
                n += len(el_force(e).encode(self.enc))
        return n

    def _vals(self):
        """list of byte values (ints or UInts)"""
        out = []
        for e in elems(self.s):
            if type(e) is UCh:
                w = wrapfn(e.var, e.fn.map(('enc', self.enc), lambda c: len(c.encode(self.enc))))
                w = w if isinstance(w, int) else w.__index__()
                for j in range(w):
                    out.append(wrapfn(e.var, e.fn.map(('encb', self.enc, j), lambda c, j=j: (c.encode(self.enc) + b'\0' * 9)[j])))
            else:
                out.extend(el_force(e).encode(self.enc))
        return out

    def __iter__(self):
        return iter(self._vals())

    def __getitem__(self, i):
        v = self._vals()
        if isinstance(i, slice):
            v = [x if isinstance(x, int) else x.__index__() for x in v[i]]
            return bytes(v)
        return v[norm_idx(i)]

    def __bool__(self):
        return len(self.s) > 0

    def __repr__(self):
        return 'SymBytes'


class Opaque(SymBase):
    """hex/raw digest of a symbolic text, assumed injective; anything other
    than equality forces the text to concrete values"""
    __slots__ = ('kind', 's')

    def __init__(self, kind, s):
        self.kind, self.s = kind, s

    def force(self):
        import hashlib
        name, enc, out = self.kind
        t = self.s.force() if isinstance(self.s, SymStr) else self.s
        h = hashlib.new(name, t.encode(enc))
        return h.hexdigest() if out == 'hex' else h.digest()

    def __eq__(self, o):
        if isinstance(o, Opaque):
            if o.kind == self.kind:
                return self.s == o.s
            return False
        if isinstance(o, (str, bytes)):
            return self.force() == o
        if isinstance(o, SymStr):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return 0x5eed

    def __len__(self):
        return len(self.force()) if not self.s else len(Opaque(self.kind, '').force())

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self.force()[i]

    def __getattr__(self, n):
        return getattr(self.force(), n)

    def __iter__(self):
        return iter(self.force())

    def __add__(self, o):
        if isstr(o):
            return mk(elems(self) + elems(o))
        return NotImplemented

    def __radd__(self, o):
        if isstr(o):
            return mk(elems(o) + elems(self))
        return NotImplemented

    def __str__(self):
        return self.force()

    def __repr__(self):
        return 'Opaque'


class SymHash:
    """hashlib object over symbolic data"""

    def __init__(self, name, data=b''):
        self.name = name
        self.parts = []
        if not (isinstance(data, (bytes, bytearray)) and len(data) == 0):
            self.update(data)

    def update(self, d):
        if isinstance(d, SymBytes):
            enc = d.enc
            if enc == 'latin-1' and all(type(e) is not str or e < '\x80' for e in elems(d.s)):
                enc = None
            self.parts.append((d.s, enc))
        elif isinstance(d, (bytes, bytearray)):
            self.parts.append((bytes(d).decode('latin-1'), 'latin-1')
                              if not bytes(d).isascii() else (bytes(d).decode('ascii'), None))
        else:
            raise TypeError('Strings must be encoded before hashing')

    def _txt(self):
        encs = {e for _, e in self.parts if e}
        if len(encs) > 1:
            return None
        return sjoin('', [s for s, _ in self.parts]), (encs.pop() if encs else 'utf-8')

    def _dig(self, out):
        t = self._txt()
        if t is None:
            import hashlib
            h = hashlib.new(self.name)
            for s, e in self.parts:
                h.update((s.force() if isinstance(s, SymStr) else s).encode(e or 'utf-8'))
            return h.hexdigest() if out == 'hex' else h.digest()
        return Opaque((self.name, 'utf-8' if t[1] in ('utf-8', 'utf8') else t[1], out), t[0])

    def hexdigest(self):
        return self._dig('hex')

    def digest(self):
        return self._dig('raw')


# ------------------------------------------------------------ integers

class SymNum(SymBase):
    __slots__ = ()

    def _z(self):
        raise NotImplementedError

    def _vars(self):
        return ()

    def _f(self):
        """Python function from a model to the value, or None"""
        return None

    def _n(self, name, f, o, refl=False):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float):
            return f(self.__index__(), o) if not refl else f(o, self.__index__())
        if not isinstance(o, (int, SymNum)):
            return NotImplemented
        if isinstance(self, UInt):
            if isinstance(o, int):
                key = ('n', name, o, refl)
                g = (lambda v: f(o, v)) if refl else (lambda v: f(v, o))
                return wrapfn(self.var, self.fn.map(key, g))
            if isinstance(o, UInt) and o.var is self.var:
                vals = []
                for a, b in zip(self.fn.vals, o.fn.vals):
                    try:
                        vals.append(f(a, b) if not refl else f(b, a))
                    except Exception as e:
                        vals.append(Raised(e))
                return wrapfn(self.var, core.mkfn(self.var.alpha, tuple(vals)))
        zop = ZOPS.get(name)
        if zop is None:
            a = self.__index__()
            return f(a, o) if not refl else f(o, a)
        a, b = self._z(), (o._z() if isinstance(o, SymNum) else z3.IntVal(o))
        if refl:
            a, b = b, a
        vs = tuple(self._vars()) + (tuple(o._vars()) if isinstance(o, SymNum) else ())
        if name in ('//', '%'):
            if refl or isinstance(o, SymNum) or o <= 0:
                a = self.__index__()
                return f(a, o) if not refl else f(o, a)
        if name == '*' and isinstance(o, SymNum):
            return f(self.__index__(), o) if not refl else f(o, self.__index__())
        g, h = self._f(), (o._f() if isinstance(o, SymNum) else (lambda m: o))
        pf = None
        if g is not None and h is not None:
            pf = (lambda m: f(h(m), g(m))) if refl else (lambda m: f(g(m), h(m)))
        if name in ('<', '<=', '>', '>=', '==', '!='):
            return zb(zop(a, b), vs, pf)
        if name == '<<':
            if refl or isinstance(o, SymNum):
                return f(self.__index__(), o) if not refl else f(o, self.__index__())
            return SymInt(a * (1 << o), vs, pf)
        return SymInt(zop(a, b), vs, pf)

    def __add__(self, o): return self._n('+', lambda a, b: a + b, o)
    def __radd__(self, o): return self._n('+', lambda a, b: a + b, o, True)
    def __sub__(self, o): return self._n('-', lambda a, b: a - b, o)
    def __rsub__(self, o): return self._n('-', lambda a, b: a - b, o, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._n('*', lambda a, b: a * b, o)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._n('*', lambda a, b: a * b, o, True)

    def __floordiv__(self, o): return self._n('//', lambda a, b: a // b, o)
    def __rfloordiv__(self, o): return self._n('//', lambda a, b: a // b, o, True)
    def __mod__(self, o): return self._n('%', lambda a, b: a % b, o)
    def __rmod__(self, o):
        return self._n('%', lambda a, b: a % b, o, True)
    def __and__(self, o): return self._n('&', lambda a, b: a & b, o)
    def __rand__(self, o): return self._n('&', lambda a, b: a & b, o, True)
    def __or__(self, o): return self._n('|', lambda a, b: a | b, o)
    def __ror__(self, o): return self._n('|', lambda a, b: a | b, o, True)
    def __xor__(self, o): return self._n('^', lambda a, b: a ^ b, o)
    def __rxor__(self, o): return self._n('^', lambda a, b: a ^ b, o, True)
    def __lshift__(self, o): return self._n('<<', lambda a, b: a << b, o)
    def __rlshift__(self, o): return self._n('<<', lambda a, b: a << b, o, True)
    def __rshift__(self, o): return self._n('>>', lambda a, b: a >> b, o)
    def __rrshift__(self, o): return self._n('>>', lambda a, b: a >> b, o, True)
    def __pow__(self, o): return self._n('**', lambda a, b: a ** b, o)
    def __rpow__(self, o): return self._n('**', lambda a, b: a ** b, o, True)
    def __truediv__(self, o): return self.__index__() / o
    def __rtruediv__(self, o): return o / self.__index__()
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return 0 - self
    def __pos__(self): return self
    def __invert__(self): return -1 - self
    def __abs__(self): return self if decide(tobool(self >= 0)) else -self
    def __lt__(self, o): return self._n('<', lambda a, b: a < b, o)
    def __le__(self, o): return self._n('<=', lambda a, b: a <= b, o)
    def __gt__(self, o): return self._n('>', lambda a, b: a > b, o)
    def __ge__(self, o): return self._n('>=', lambda a, b: a >= b, o)

    def __eq__(self, o):
        r = self._n('==', lambda a, b: a == b, o)
        return r

    def __ne__(self, o):
        r = self._n('!=', lambda a, b: a != b, o)
        return r

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return decide(tobool(self != 0))

    def __int__(self): return self.__index__()
    def __float__(self): return float(self.__index__())
    def __str__(self): return str(self.__index__())
    def __format__(self, s): return format(self.__index__(), s)

    def __repr__(self):
        return type(self).__name__


ZOPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
        '//': lambda a, b: a / b, '%': lambda a, b: a % b, '<<': True,
        '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
        '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def zb(e, vs, f=None):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return BZ(e, vs, f)


class UInt(SymNum):
    __slots__ = ('var', 'fn')

    def __init__(self, var, fn):
        self.var, self.fn = var, fn

    def _z(self):
        return core.zfun(self.var, self.fn)

    def _vars(self):
        return (self.var,)

    def _f(self):
        vals, name = self.fn.vals, self.var.name
        return None if any(isinstance(v, Raised) for v in vals) else (lambda m: vals[m[name]])

    def __index__(self):
        return choose(self.var, self.fn)

    def tostr(self):
        return wrapfn(self.var, self.fn.map('str', str))


class SymInt(SymNum):
    __slots__ = ('e', 'vs', 'f')

    def __init__(self, e, vs=(), f=None):
        self.e, self.vs, self.f = e, vs, f

    def _z(self):
        return self.e

    def _f(self):
        return self.f

    def _vars(self):
        return self.vs

    def __index__(self):
        # enumerate values through the solver
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        f = self.f
        if f is not None and self.vs and not core.NOFORK:
            # a function of characters with many values: fork on the characters
            vs = {v.name: v for v in self.vs}
            n = 1
            for v in vs.values():
                n *= v.dom.bit_count()
            if n > 4096 or len({f(dict(zip(vs, t))) for t in itertools.product(*[core.bits(v.dom) for v in vs.values()])}) > 8:
                for v in vs.values():
                    choose(v)
                return f({k: low(v.dom) for k, v in vs.items()})
        while True:
            v = core.P.int_value(self)
            if decide(zb(self.e == v, self.vs, f and (lambda m: f(m) == v))):
                return v

    def tostr(self, maxdigits=12):
        """decimal representation: fork on sign and number of digits"""
        if decide(zb(self.e < 0, self.vs)):
            return '-' + SymInt(-self.e, self.vs).tostr()
        k = 1
        while k < maxdigits:
            if decide(zb(self.e < 10 ** k, self.vs)):
                break
            k += 1
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return str(e.as_long())
        ds = []
        for j in range(k - 1, -1, -1):
            x = self.e if j == 0 else self.e / (10 ** j)
            if j != k - 1:
                x = x % 10
            ds.append(ZCh(x, tuple(self.vs)))
        return SymStr(tuple(ds))


def _self_copy(self, memo=None):
    return self


for _c in (SymBase, UCh, ZCh, SymHash):
    _c.__copy__ = _self_copy
    _c.__deepcopy__ = _self_copy
