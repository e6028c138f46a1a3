"""Self-test of the engine: every SymStr operation and every regular expression
is executed symbolically over a small alphabet and each path's result is
compared with the real Python operation on every member of the path."""
import itertools
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3  # noqa
from symex import core, ctx as ctxm, explore, rt, symre  # noqa
from symex.sym import SymStr, UCh, mk  # noqa

SOLVER = z3.Solver()


def paths(fn, n, alpha):
    stack = [[]]
    a = core.Alphabet(alpha)
    while stack:
        p = core.Path(stack.pop(), SOLVER, explore.new_stats())
        core.set_path(p)
        rt.reset()
        vs = [p.newvar('c%d' % i, a) for i in range(n)]
        s = mk([UCh(v, a.ident) for v in vs])
        try:
            r = ('ok', fn(s))
        except core.PathAbort:
            continue
        except Exception as e:
            r = ('exc', type(e).__name__)
        stack += p.alts
        doms = [[i for i in range(a.n) if v.dom >> i & 1] for v in vs]
        for combo in itertools.product(*doms):
            m = {v.name: i for v, i in zip(vs, combo)}
            if not all(c.at(m) for c in p.cons):
                continue
            yield r, ''.join(a.values[i] for i in combo), m


def flat(v):
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    return v


def check(name, fsym, freal, n, alpha, bad):
    seen = set()
    for r, s, m in paths(fsym, n, alpha):
        assert s not in seen, ('path overlap', name, s)
        seen.add(s)
        try:
            want = ['ok', flat(freal(s))]
        except Exception as e:
            want = ['exc', type(e).__name__]
        got = [r[0], flat(ctxm.evalm(r[1], m))]
        if got != want:
            bad.append((name, s, got, want))
            if len(bad) > 20:
                return
    assert len(seen) == len(alpha) ** n, (name, 'paths do not cover', len(seen))


def mt(m):
    return None if m is None else [m.span(), m.group(0), list(m.groups())]


def main():
    bad = []
    n = 0
    strops = [
        ("strip", lambda s: s.strip()), ("strip '# '", lambda s: s.strip('# ')), ("lstrip", lambda s: s.lstrip(' ')),
        ("rstrip", lambda s: s.rstrip('a')), ("split", lambda s: s.split()), ("split ' '", lambda s: s.split(' ')),
        ("split ' ' 1", lambda s: s.split(' ', 1)), ("rsplit", lambda s: s.rsplit('a', 1)), ("splitlines", lambda s: s.splitlines()),
        ("splitlines k", lambda s: s.splitlines(True)), ("replace", lambda s: s.replace('a', '')),
        ("replace2", lambda s: s.replace('aa', 'b')), ("replace3", lambda s: s.replace('a', 'bc', 1)), ("find", lambda s: s.find('a')),
        ("rfind", lambda s: s.rfind('a')), ("index", lambda s: s.index('aA')), ("count", lambda s: s.count('aa')), ("upper", lambda s: s.upper()),
        ("lower", lambda s: s.lower()), ("isspace", lambda s: bool(s.isspace())), ("isalnum", lambda s: bool(s.isalnum())),
        ("in", lambda s: 'aA' in s), ("slice", lambda s: s[::-1] + s[1:]), ("startswith", lambda s: bool(s.startswith(('a', ' ')))),
        ("endswith", lambda s: bool(s.endswith('a'))), ("partition", lambda s: s.partition('a')), ("rpartition", lambda s: s.rpartition('a')),
        ("lt", lambda s: bool(s < 'aa')), ("ge", lambda s: bool(s >= 'A')), ("islower", lambda s: bool(s.islower())), ("isupper", lambda s: bool(s.isupper())),
        ("removeprefix", lambda s: s.removeprefix('a')), ("removesuffix", lambda s: s.removesuffix('a')), ("zfill", lambda s: s.rjust(5, '0')),
        ("casefold", lambda s: s.casefold()), ("encode", lambda s: len(s.encode())), ("title0", lambda s: s.title()),
        ("ordsum", lambda s: sum(rt.call(ord, c) if isinstance(c, SymStr) else ord(c) for c in s)),
    ]
    for name, f in strops:
        for k in (1, 2, 3):
            check(name, f, f, k, "aA \n\u00dfe", bad)
            n += 1
        check(name, f, f, 2, "a\r\n \u2028\x85\x1c\u0130", bad)
    pats = set()
    extra = [r'a*?b', r'(a|ab)(c|bcd)?', r'^a+$', r'(?i)AbC', r'[^a]b', r'\bab\b', r'a{1,2}b', r'(?=a)a.', r'(?!a).', r'(?<=a)b', r'(?<!a)b', r'(a)\1',
             r'(?P<x>a+)b?', r'\s*\S+', r'(?s).*b', r'.$', r'(?m)^a', r'[\w-]+', r'(?:a|b)*?a', r'a++b', r'(?>a+)b', r'', r'a|', r'\Aab\Z', r'[a-c&&x]']
    import warnings
    warnings.simplefilter('ignore')
    sys.path.append(explore.site_packages())
    from md_toc import constants as C   # plain import of the real tables
    real = []

    def walk(o):
        if isinstance(o, dict):
            for v in o.values():
                walk(v)
        elif isinstance(o, str) and any(c in o for c in '[](*?\\') and len(o) > 3:
            real.append(o)
    walk(C.parser)
    for p in extra + real:
        try:
            cp = re.compile(p)
        except re.error:
            continue
        pats.add(p)
        alpha = 'abc-' if p in extra else '<a/>! -b='[:7]
        kmax = 4 if p in extra else 4
        for k in range(0, kmax + 1):
            check('match ' + p, lambda s: mt(symre.do_match(cp, s) if isinstance(s, SymStr) else cp.match(s)), lambda s: mt(cp.match(s)), k, alpha, bad)
            check('search ' + p, lambda s: mt(symre.do_search(cp, s) if isinstance(s, SymStr) else cp.search(s)), lambda s: mt(cp.search(s)), k, alpha, bad)
            if k <= 3:
                check('sub ' + p, lambda s: rt.call(cp.sub, 'X', s), lambda s: cp.sub('X', s), k, alpha, bad)
                check('split ' + p, lambda s: rt.call(cp.split, s), lambda s: cp.split(s), k, alpha, bad)
                check('findall ' + p, lambda s: rt.call(cp.findall, s), lambda s: cp.findall(s), k, alpha, bad)
            n += 1
    for b in bad[:20]:
        print('BAD', b)
    print('selftest: %d groups, %d patterns, %d bad' % (n, len(pats), len(bad)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.path.insert(0, '/repo')
    sys.exit(main())
