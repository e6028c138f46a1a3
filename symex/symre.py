"""A backtracking matcher over CPython's parsed regular expressions that works
on symbolic strings: each character test is decided on the current path."""
import re
from re import _parser, _constants as C

from . import core
from .core import decide, tobool, sand, sor, snot
from .sym import SymStr, elems, mk, el_test, el_eq, isstr, sjoin

_parsed = {}


class Prog:
    def __init__(self, pattern, flags):
        p = _parser.parse(pattern, flags)
        self.flags = p.state.flags
        self.tree = list(p)
        self.groups = p.state.groups
        self.names = dict(p.state.groupdict)


def prog(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        k = (pattern.pattern, pattern.flags & ~re.DEBUG)
    else:
        if isinstance(pattern, SymStr):
            pattern = pattern.force()
        k = (pattern, int(flags))
    r = _parsed.get(k)
    if r is None:
        r = _parsed[k] = Prog(k[0], k[1] & ~re.TEMPLATE if hasattr(re, 'TEMPLATE') else k[1])
    return r


CAT = {}


def cat(c, flags):
    k = (c, bool(flags & re.ASCII))
    r = CAT.get(k)
    if r is None:
        pat = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s',
               C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}[c]
        rx = re.compile(pat, re.ASCII if k[1] else 0)
        r = CAT[k] = lambda ch: rx.match(ch) is not None
    return r


def pred_in(items, flags):
    def one(ch):
        neg = False
        hit = False
        o = ord(ch)
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                hit = hit or o == av
            elif op is C.RANGE:
                hit = hit or av[0] <= o <= av[1]
            elif op is C.CATEGORY:
                hit = hit or cat(av, flags)(ch)
            else:
                raise NotImplementedError(str(op))
        return hit, neg

    def f(ch):
        hit, neg = one(ch)
        if flags & re.IGNORECASE and not hit:
            for alt in (ch.lower(), ch.upper(), ch.casefold()):
                if len(alt) == 1 and one(alt)[0]:
                    hit = True
        return hit != neg
    return f


def pred(op, av, flags):
    if op is C.LITERAL:
        if flags & re.IGNORECASE:
            rx = re.compile(re.escape(chr(av)), re.IGNORECASE | (flags & re.ASCII))
            return lambda ch: rx.match(ch) is not None
        c = chr(av)
        return lambda ch: ch == c
    if op is C.NOT_LITERAL:
        p = pred(C.LITERAL, av, flags)
        return lambda ch: not p(ch)
    if op is C.ANY:
        if flags & re.DOTALL:
            return lambda ch: True
        return lambda ch: ch != '\n'
    if op is C.IN:
        return pred_in(av, flags)
    raise NotImplementedError(str(op))


_pk = {}


def drive(gen):
    """run generators that yield results or further generators to run in their place (no recursion: long subjects)"""
    stack = [gen]
    while stack:
        for x in stack[-1]:
            if isinstance(x, tuple):
                yield x
                # resume the same generator
                break
            stack.append(x)
            break
        else:
            stack.pop()


class M:
    """one matching run"""

    def __init__(self, el, prog, n=None):
        self.el = el
        self.n = len(el) if n is None else n
        self.prog = prog

    def test(self, i, node, flags):
        k = (id(node), flags)
        p = _pk.get(k)
        if p is None:
            p = _pk[k] = (('re', repr(node), int(flags)), pred(node[0], node[1], flags), node)
        return el_test(self.el[i], p[0], p[1])

    def seq(self, nodes, k, i, g, flags, cont):
        """generator of (end, groups) and of generators of them, for drive()"""
        core.tick()
        if k == len(nodes):
            yield cont(i, g)
            return
        node = nodes[k]
        op, av = node
        nxt = lambda j, gg: self.seq(nodes, k + 1, j, gg, flags, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i < self.n and decide(tobool(self.test(i, node, flags))):
                yield nxt(i + 1, g)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                yield self.seq(list(alt), 0, i, g, flags, nxt)
            return
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            f2 = (flags | add) & ~rem
            if gid is None:
                yield self.seq(list(sub), 0, i, g, f2, nxt)
            else:
                def done(j, gg, i=i):
                    g2 = dict(gg)
                    g2[gid] = (i, j)
                    g2['last'] = gid
                    return nxt(j, g2)
                yield self.seq(list(sub), 0, i, g, f2, done)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is C.MAX_REPEAT and len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                # single character loop
                j = i
                while (hi is C.MAXREPEAT or j - i < hi) and j < self.n and \
                        decide(tobool(self.test(j, sub[0], flags))):
                    j += 1
                while j - i >= lo:
                    yield nxt(j, g)
                    j -= 1
                return
            yield self.rep(sub, lo, hi, op is C.MAX_REPEAT, 0, i, g, flags, nxt)
            return
        if hasattr(C, 'POSSESSIVE_REPEAT') and op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            for j, gg in drive(self.rep(list(sub), lo, hi, True, 0, i, g, flags, lambda j, gg: iter([(j, gg)]))):
                yield nxt(j, gg)
                return
            return
        if hasattr(C, 'ATOMIC_GROUP') and op is C.ATOMIC_GROUP:
            for j, gg in drive(self.seq(list(av), 0, i, g, flags, lambda j, gg: iter([(j, gg)]))):
                yield nxt(j, gg)
                return
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            ok = None
            if d >= 0:
                for j, gg in drive(self.seq(list(sub), 0, i, g, flags, lambda j, gg: iter([(j, gg)]))):
                    ok = gg
                    break
            else:
                w = sub.getwidth()[0]
                if i - w >= 0:
                    for j, gg in drive(self.seq(list(sub), 0, i - w, g, flags, lambda j, gg: iter([(j, gg)]))):
                        if j == i:
                            ok = gg
                            break
            if op is C.ASSERT:
                if ok is not None:
                    yield nxt(i, ok)
            elif ok is None:
                yield nxt(i, g)
            return
        if op is C.AT:
            if self.at(av, i, flags):
                yield nxt(i, g)
            return
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return
            w = sp[1] - sp[0]
            if i + w > self.n:
                return
            for t in range(w):
                a, b = self.el[sp[0] + t], self.el[i + t]
                if flags & re.IGNORECASE:
                    a, b = elems(mk((a,)).lower())[0], elems(mk((b,)).lower())[0]
                if not decide(tobool(el_eq(a, b))):
                    return
            yield nxt(i + w, g)
            return
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            br = yes if g.get(gid) is not None else no
            yield self.seq(list(br) if br else [], 0, i, g, flags, nxt)
            return
        if op is C.FAILURE:
            return
        raise NotImplementedError(str(op))

    def rep(self, sub, lo, hi, greedy, count, i, g, flags, nxt):
        core.tick()

        def more(j, gg):
            if j == i and count >= lo:
                return iter(())
            return self.rep(sub, lo, hi, greedy, count + 1, j, gg, flags, nxt)
        can = hi is C.MAXREPEAT or count < hi
        if count < lo:
            yield self.seq(sub, 0, i, g, flags, more)
            return
        if greedy:
            if can:
                yield self.seq(sub, 0, i, g, flags, more)
            yield nxt(i, g)
        else:
            yield nxt(i, g)
            if can:
                yield self.seq(sub, 0, i, g, flags, more)

    def at(self, av, i, flags):
        n = self.n
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.MULTILINE):
            return i == 0
        if av is C.AT_BEGINNING:
            return i == 0 or decide(tobool(el_eq(self.el[i - 1], '\n')))
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if flags & re.MULTILINE:
                return decide(tobool(el_eq(self.el[i], '\n')))
            return i == n - 1 and decide(tobool(el_eq(self.el[i], '\n')))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = cat(C.CATEGORY_WORD, flags)
            key = ('word', bool(flags & re.ASCII))
            a = i > 0 and decide(tobool(el_test(self.el[i - 1], key, w)))
            b = i < n and decide(tobool(el_test(self.el[i], key, w)))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise NotImplementedError(str(av))

    def run(self, start, mode, must_advance=False):
        def acc(j, g):
            if mode == 'full' and j != self.n:
                return iter(())
            if must_advance and j == start:
                return iter(())
            return iter([(j, g)])
        for j, g in drive(self.seq(self.prog.tree, 0, start, {}, self.prog.flags, acc)):
            return (start, j, g)
        return None


class SymMatch:
    def __init__(self, string, prog, res, pattern, pos=0):
        self.string = string
        self.re = pattern
        self._p = prog
        self._s, self._e, self._g = res
        self.pos = pos
        self.endpos = len(string)
        self.lastindex = self._g.get('last')

    def _gid(self, g):
        if isinstance(g, str):
            return self._p.names[g]
        g = int(g)
        if g < 0 or g >= self._p.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        g = self._gid(g)
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        s, e = self.span(g)
        if s < 0:
            return default
        return self.string[s:e]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self._p.groups))

    def groupdict(self, default=None):
        return {n: self._one(g, default) for n, g in self._p.names.items()}

    def expand(self, template):
        return sjoin('', [self._one(x, '') if isinstance(x, int) else x for x in _template(self._p, self.re, template)])

    def __bool__(self):
        return True


def _template(prog, pattern, template):
    rp = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, 0)
    r = _parser.parse_template(template, rp)
    if isinstance(r, tuple):       # <= 3.11 format
        raise NotImplementedError
    return r


def _pat(pattern, flags):
    if isinstance(pattern, re.Pattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = pattern.force()
    return re.compile(pattern, flags)


def _lim(string, pos, endpos):
    n = len(string)
    e = n if endpos is None else max(0, min(n, int(endpos)))
    s = max(0, min(int(pos), n))
    return s, e


def do_match(pattern, string, flags=0, pos=0, endpos=None, mode='match'):
    p = prog(pattern, flags)
    s, e = _lim(string, pos, endpos)
    m = M(elems(string), p, e)
    if s > e:
        return None
    r = m.run(s, mode)
    return SymMatch(string, p, r, _pat(pattern, flags)) if r else None


def do_search(pattern, string, flags=0, pos=0, endpos=None):
    p = prog(pattern, flags)
    s, e = _lim(string, pos, endpos)
    m = M(elems(string), p, e)
    for i in range(s, e + 1):
        r = m.run(i, 'match')
        if r:
            return SymMatch(string, p, r, _pat(pattern, flags))
    return None


def do_iter(pattern, string, flags=0, pos=0, endpos=None):
    p = prog(pattern, flags)
    s, e = _lim(string, pos, endpos)
    m = M(elems(string), p, e)
    pat = _pat(pattern, flags)
    must = False
    i = s
    while i <= e:
        r = None
        j = i
        while j <= e:
            r = m.run(j, 'match', must and j == i)
            if r:
                break
            j += 1
        if not r:
            return
        yield SymMatch(string, p, r, pat)
        must = r[0] == r[1]
        i = r[1]


def do_subn(pattern, repl, string, count=0, flags=0, call=None):
    out = []
    last = 0
    n = 0
    pat = _pat(pattern, flags)
    if isstr(repl):
        if isinstance(repl, SymStr):
            f = lambda m: repl if not repl.contains('\\') else m.expand(repl.force())
        elif '\\' not in repl:
            f = lambda m: repl
        else:
            f = lambda m: m.expand(repl)
    else:
        f = lambda m: call(repl, m)
    for m in do_iter(pat, string):
        if count and n >= count:
            break
        out.append(string[last:m._s])
        out.append(f(m))
        last = m._e
        n += 1
    out.append(string[last:])
    return sjoin('', out), n


def do_findall(pattern, string, flags=0, pos=0, endpos=None):
    out = []
    for m in do_iter(pattern, string, flags, pos, endpos):
        g = m.groups('')
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def do_split(pattern, string, maxsplit=0, flags=0):
    out = []
    last = 0
    n = 0
    for m in do_iter(pattern, string, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(string[last:m._s])
        out.extend(m.groups())
        last = m._e
        n += 1
    out.append(string[last:])
    return out
