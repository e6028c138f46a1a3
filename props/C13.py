from md_toc import api
from props.common import build_lines, job, djob, pick_opts, toc_of_text, api_options, rep
from props.ref import PARSERS, CMARK_LIKE


def skip(ctx, tpl, extra=2, via=('file', 'stdin'), ends=('\n', '\r\n', '\r'), **opts):
    """skipping n lines = the document without them"""
    opts = pick_opts(ctx, opts)
    via = ctx.pick('via', via)
    end = ctx.pick('end', ends)
    lines = build_lines(ctx, tpl)
    n = ctx.pick('skip', range(0, len(lines) + extra + 1))
    last = ctx.pick('last', [end, ''])
    text = end.join(lines) + last
    rest = end.join(lines[n:]) + (last if n < len(lines) else '')
    a = toc_of_text(ctx, text, opts, via, dict(skip_lines=n))
    b = toc_of_text(ctx, rest, opts, via, dict(skip_lines=0))
    ctx.check(ctx.same(a, b), 'skipping lines equals deleting them')
    if n >= len(lines):
        ctx.check(a.ok, 'skipping everything succeeds')
        ctx.check(ctx.same(a.value, ''), 'skipping everything gives an empty TOC')


def several(ctx, tpl, **opts):
    """the lines are skipped in every file"""
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    n = ctx.pick('skip', range(0, len(lines) + 2))
    names = ['a.md', 'b.md', 'c.md']
    docs = [lines, lines[1:] + lines[:1], lines[:1] + lines]
    want = []
    for d in docs:
        r = toc_of_text(ctx, ''.join([x + '\n' for x in d[n:]]), opts)
        ctx.assume(r.ok)
        want.append(r.value)
    for name, d in zip(names, docs):
        ctx.write(name, ''.join([x + '\n' for x in d]))
    r = ctx.call(api.build_multiple_tocs, [ctx.path(x) for x in names], skip_lines=n, **api_options(opts))
    ctx.check(r.ok, 'succeeds')
    ctx.check(ctx.same(r.value, want), 'lines are skipped in every file')


def huge(ctx, n_lines, via):
    """any number of lines beyond the document"""
    n = ctx.pick('n', [n_lines, n_lines + 1, 1000])
    a = toc_of_text(ctx, '# x\n' * n_lines, {}, ctx.pick('via', via), dict(skip_lines=n))
    ctx.check(a.ok, 'succeeds')
    ctx.check(ctx.same(a.value, ''), 'empty TOC')


def negative(ctx, via):
    n = ctx.int('n', -1000, -1)
    r = toc_of_text(ctx, '# ' + ctx.str('s', 1, 'ab') + '\n', {}, ctx.pick('via', via), dict(skip_lines=n))
    ctx.check(r.kind == 'exc' and r.value == 'ValueError', 'a negative number is rejected')


def after(ctx, tpl, **opts):
    """several numbers of lines one after the other"""
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    text = '\n'.join(lines) + '\n'
    n, m = ctx.pick('n', range(len(lines) + 2)), ctx.pick('m', range(len(lines) + 2))
    toc_of_text(ctx, text, opts, 'file', dict(skip_lines=m))
    a = toc_of_text(ctx, text, opts, 'file', dict(skip_lines=n))
    ctx.write('new.md', ''.join([x + '\n' for x in lines[n:]]))
    b = ctx.call(api.build_toc, ctx.path('new.md'), **api_options(opts))
    ctx.check(ctx.same(a, b), 'skipping lines equals deleting them, whatever was called before')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    LF = ('\n',)
    H = ('#', ' ', 'a', '`', '~')
    J.append(djob(['# x', '# x', '## y', '# x'], 'skip', ordered=[False, True], parser=PARSERS))
    J.append(djob(['```', '# x', '```', '# y', '# x'], 'skip', parser=['github', 'cmark']))
    J.append(djob([[(3, H)], '# x', [(3, H)], '# x'], 'skip', ends=LF, extra=1, keep=6))
    J.append(djob([['#', (1, '# '), ' a'], ['#', (2, '# '), ' a'], ['#', (2, '# '), ' a']], 'skip', ends=LF, extra=0,
                  parser=['gitlab', 'redcarpet'], ordered=[False, True]))
    J.append(djob([[(2, 'LINE')], '# x', '# x'], 'skip', ends=LF, extra=0, no_links=True))
    J.append(djob(['', '', '# x', '', '# x'], 'skip', parser=PARSERS))
    J.append(djob(['# x', [(1, 'LINE')], '# x', [(1, H)], '# x'], 'skip', ends=LF, extra=0))
    J.append(djob([['x', (1, 'LINE'), '# z'], '# x', '# x'], 'skip', ends=LF, extra=0))
    J.append(djob(['### a', '# b', '### c', '# b'], 'skip', no_indentation=[False, True], no_coherence=[False, True], parser=['github']))
    J.append(djob(['# [', '# ', '#', '# x'], 'skip', ends=LF, parser=PARSERS))
    J.append(djob(['# x', ['#', (1, '# '), ' a'], '```', '# b'], 'several', parser=['github', 'redcarpet'], ordered=[False, True]))
    J.append(job('huge', n_lines=3, via=['file', 'stdin']))
    J.append(job('negative', via=['file', 'stdin']))
    if T:
        J.append(djob([[(4, H)], '# x', [(4, H)], '# x', [(3, H)]], 'skip', ends=LF, extra=0, via=('file',), keep=6))
        J.append(djob([[(3, 'LINE')], [(2, 'LINE')], '# x'], 'skip', ends=LF, extra=0, no_links=True))
    # many lines, long lines
    J.append(djob([rep('# x', (1, 12, 40)), [(2, H), '# y'], '# x'], 'skip', ends=LF, extra=1, ordered=True, parser=['github']))
    J.append(djob([['x', (1, 'LINE', (1, 100, 9000)), 'y'], '# x', [('z', (1, 5000)), (1, H)], '# x'], 'skip', extra=0, parser=['github', 'redcarpet']))
    J.append(djob([[(1, '`~', (3, 40)), (1, '`~a')], rep('# x', (1, 15)), '```', '# x'], 'skip', ends=LF, extra=0, via=('file',)))
    J.append(djob([rep('', (1, 30)), rep('# x', (1, 15))], 'skip', parser=['cmark']))
    # after other calls
    J.append(djob(['# a', '```', ['# ', (1, 'ab')], '```', '# a'], 'after', parser=['github', 'redcarpet']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('documents of three to five lines with up to two symbolic lines of 2 or 3 characters, every number of skipped lines from 0 to two '
          'more than the lines, files and standard input, LF, CRLF and CR, terminated and not; symbolic negative numbers down to -1000; three files at once; '
          'documents of up to 45 lines and lines of up to 9000 characters; '
          'two calls with different numbers')
OUTSIDE = 'longer documents; undecodable input (C23)'
ASSUMPTIONS = []
