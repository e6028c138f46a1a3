from md_toc import api
from props.common import build, build_lines, job, djob, tjob, pick_opts, api_options
from props.ref import PARSERS, ref_toc, Unspecified

BAD = '\udcff'
DOC = ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel', 'GithubOverflowOrderedListMarker', 'TocDoesNotRenderAsCoherentList')


def comment(name):
    return '<!--stop reading ' + name + ': probably a binary file-->'


def bad(ctx, parts, pad=0, via=('file', 'stdin'), skips=(0,), **opts):
    """a text with one undecodable byte somewhere"""
    opts = pick_opts(ctx, opts)
    text = build(ctx, parts)
    text = ('x' * 79 + '\n') * pad + text
    k = api_options(opts)
    k['skip_lines'] = ctx.pick('skip', skips)
    via = ctx.pick('via', via)
    if via == 'file':
        ctx.write('doc.md', text)
        name = ctx.path('doc.md')
    else:
        ctx.set_stdin(text)
        name = '-'
    r = ctx.call(api.build_toc, name, **k)
    if r.kind == 'exc' and r.value in DOC:
        # an error of the readable text that comes before
        try:
            e = ref_toc(text.split(BAD)[0].split('\n')[k['skip_lines']:], **opts)
        except Unspecified:
            return
        ctx.check(e[0] == 'exc' and r.value in e[1], 'only an error of the text before the bytes')
        return
    ctx.check(r.ok, 'raises nothing')
    ctx.check(ctx.same(r.value, comment(name)), 'the stop comment alone')


def good(ctx, parts, pad=0, skips=(0,), **opts):
    """a decodable text"""
    opts = pick_opts(ctx, opts)
    text = ('x' * 79 + '\n') * pad + build(ctx, parts)
    ctx.write('doc.md', text)
    r = ctx.call(api.build_toc, ctx.path('doc.md'), skip_lines=ctx.pick('skip', skips), **api_options(opts))
    if r.ok:
        ctx.check(ctx.neg(comment(ctx.path('doc.md')) in r.value), 'no stop comment for a decodable text')
    else:
        ctx.check(r.kind == 'exc' and r.value in DOC, 'no other error')


def several(ctx):
    """a binary file among others"""
    at = ctx.pick('at', [0, 1, 2])
    c = ctx.str('c', 1, 'ab')
    texts = ['# ' + c + '\n'] * 3
    texts[at] = '# a\n' + ctx.pick('pre', ['', 'x\n' * 5000]) + BAD + '\n'
    for i in range(3):
        ctx.write('f%d.md' % i, texts[i])
    names = [ctx.path('f%d.md' % i) for i in range(3)]
    r = ctx.call(api.build_multiple_tocs, list(names))
    ctx.check(r.ok, 'raises nothing')
    want = ['- [' + c + '](#' + c + ')\n'] * 3
    want[at] = comment(names[at])
    ctx.check(ctx.same(r.value, want), 'only the binary file gets the stop comment')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    X = ('\n', '#', ' ', 'a', '`')
    B = (BAD,)
    J.append(tjob('bad', [(4, X), BAD], parser=['github', 'redcarpet']))
    J.append(tjob('bad', [(2, X), BAD, (2, X)], parser=['github', 'cmark'], skips=[0, 1, 2, 5]))
    J.append(tjob('bad', ['# a\n', (1, X), '\n', (1, X), BAD, '\n# b'], parser=PARSERS, skips=[0, 1, 2, 9]))
    J.append(tjob('bad', ['```\n', (2, X), '\n', BAD], parser=['github', 'cmark']))
    J.append(tjob('bad', [(1, 'LINE'), '\n', BAD, (1, 'LINE')], parser=['gitlab'], ordered=[False, True], constant=[False, True]))
    # the byte comes after the first block that Python decodes
    for pad in (102, 103, 205):
        J.append(tjob('bad', ['# a\n', (2, X), '\n# a', BAD, '\n'], pad=pad, parser=['github', 'redcarpet'], skips=[0, 3, pad, pad + 1, pad + 2, pad + 9]))
    J.append(tjob('bad', ['# a\n# b', 'x\n' * 4090, (4, X), BAD, 'x' * 5], parser=['github']))
    J.append(tjob('bad', ['# a\n', 'y' * 8180, (1, X), 'y' * 6, BAD], parser=['cmark'], via=['file'], skips=[0, 1, 2]))
    J.append(tjob('bad', ['# a\n```\n', 'y\n' * 4090, (3, X), BAD], parser=['cmark'], via=['file']))
    J.append(tjob('bad', ['# a\n', (1, '`~'), '``\n', 'y\n' * 4100, (2, X), '\n', BAD], parser=['cmark', 'github', 'redcarpet'], skips=[0, 1, 2]))
    J.append(tjob('good', [(2, 'ALL')], parser=['github', 'cmark']))
    J.append(tjob('good', ['a', (1, 'ALL'), '\n# ', (1, 'ALL'), 'b'], parser=PARSERS, skips=[0, 1, 3]))
    J.append(tjob('good', ['# <!--stop reading', (1, 'LINE')], parser=['github', 'cmark'], no_links=[False, True]))
    J.append(tjob('good', [(2, X), 'a\n'], pad=110, parser=['github'], skips=[0, 111, 200]))
    J.append(job('several'))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('texts of up to four symbolic characters around one undecodable byte, at the start, in a skipped line, inside a code fence, before and '
          'after the 8192-byte blocks that Python decodes at once (up to 16 kB), files and standard input, all options; decodable texts of '
          'two symbolic characters over ASCII and the Unicode representatives')
OUTSIDE = 'other encodings than UTF-8; incomplete sequences split over blocks'
ASSUMPTIONS = ['decoding happens in blocks of 8192 bytes (CPython); only the order of events depends on it']
