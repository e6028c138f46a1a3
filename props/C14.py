from md_toc import api
from props.common import build_lines, build, job, djob, pick_opts, toc_of_text, rep, doc_after
from props.ref import PARSERS, CMARK_LIKE, ref_heading, fence_open, fence_close, ref_outside_fences

ENDS = ('\n', '\r\n', '\r')


def reach(ctx, tpl, **opts):
    """file or standard input, any line ending, last line terminated or not"""
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    a = toc_of_text(ctx, '\n'.join(lines) + '\n', opts, 'file')
    via = ctx.pick('via', ['file', 'stdin'])
    end = ctx.pick('end', ENDS)
    text = end.join(lines) + ctx.pick('last', [end, ''])
    b = toc_of_text(ctx, text, opts, via)
    ctx.check(ctx.same(a, b), 'the TOC does not depend on how the document is read')
    if via == 'file':
        ctx.check(ctx.same(ctx.read('doc.md'), text), 'the input file is not modified')
    ctx.check(len(ctx.listdir()) == 1, 'no other file is created')


def mixed(ctx, tpl, **opts):
    """a different line ending after every line"""
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    a = toc_of_text(ctx, '\n'.join(lines) + '\n', opts, 'file')
    text = ''.join([lines[i] + ctx.pick('end%d' % i, ENDS) for i in range(len(lines))])
    b = toc_of_text(ctx, text, opts, ctx.pick('via', ['file', 'stdin']))
    ctx.check(ctx.same(a, b), 'the TOC does not depend on the line endings')


def neutral(ctx, tpl, hole, **opts):
    """a line that is no heading and no fence can be added anywhere"""
    opts = pick_opts(ctx, opts)
    parser = opts.get('parser', 'github')
    lines = build_lines(ctx, tpl)
    extra = build(ctx, hole, 'n')
    at = ctx.pick('at', range(len(lines) + 1))
    ctx.assume(ref_heading(extra, parser, True)[0] == 'none')
    more = lines[:at] + [extra] + lines[at:]
    if parser != 'redcarpet':
        if at in ref_outside_fences(more, parser):
            pass
        else:
            # inside a code block: any line that does not close it
            ctx.assume(fence_open(extra) is None and len(ref_outside_fences(more, parser)) == len(ref_outside_fences(lines, parser)))
    a = toc_of_text(ctx, '\n'.join(lines) + '\n', opts, 'file')
    b = toc_of_text(ctx, '\n'.join(more) + '\n', opts, 'file')
    ctx.check(ctx.same(a, b), 'lines that are not headings do not matter')


def missing(ctx, via):
    """reading a file that is not there creates none"""
    name = ctx.str('name', 1, 'ab')
    r = ctx.call(api.build_toc, ctx.path('none.md'), skip_lines=ctx.pick('skip', [0, 1]))
    ctx.check(r.kind == 'exc', 'a missing file is an error')
    ctx.check(len(ctx.listdir()) == 0, 'no file is created')


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'the TOC of a file depends on its content', **dict(dict(), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    H = ('#', ' ', 'a', '`', '~')
    for p in PARSERS:
        J.append(djob(['# x', ['#', (2, 'LINE')], '# x'], 'reach', parser=p, no_links=True, keep=6))
    J.append(djob([[(4 if T else 3, H)], '# x', [(4 if T else 3, H)]], 'reach', parser=['github', 'cmark']))
    J.append(djob(['```', '# a', ['``', (2, ('`', ' ', '\t', 'a'))]], 'reach', parser=CMARK_LIKE))
    J.append(djob([['``', (1, '`~')], '# a', ['``', (2, ('`', ' ', '\t', 'a'))], '# z'], 'reach', parser=CMARK_LIKE))
    J.append(djob(['~~~ a', '# a', ['~~~', (1, ' \ta')], '# z #'], 'mixed', parser=CMARK_LIKE))
    J.append(job('missing', via='file'))
    J.append(djob(['a', '', ['x', (1, 'LINE'), '# y'], '# z'], 'reach', parser=PARSERS))
    J.append(djob(['# a', ['#', (1, '# '), ' b']], 'reach', parser=PARSERS, ordered=[False, True], newline=['\n', '\r\n', '\r']))
    J.append(djob(['# a', ['# ', (1, 'LINE'), 'b'], '```', '# c'], 'mixed', parser=['github', 'gitlab']))
    J.append(djob(['', '# a', '', '## b', ['#', (1, '# '), ' a']], 'mixed', parser=['cmark', 'redcarpet']))
    J.append(djob(['# a', '## b', '# a'], 'neutral', hole=[(3 if T else 2, 'LINE')], parser=['github', 'cmark', 'redcarpet'], ordered=True))
    J.append(djob(['# a', '```', '# b', '```', '# a'], 'neutral', hole=[(5 if T else 4, ('`', '~', ' ', 'a', '#'))], parser=['github', 'gitlab']))
    J.append(djob(['# a', '# a'], 'neutral', hole=['    # ', (1, 'LINE')], parser=CMARK_LIKE))
    J.append(djob(['# a', '# a'], 'neutral', hole=[(1, ' a'), '==', (1, '= a')], parser=CMARK_LIKE))
    J.append(djob(['# a', '# a', '## a'], 'neutral', hole=[(1, 'LINE', (3, 9, 40))], parser=['github', 'redcarpet']))
    J.append(djob(['# a', '# a'], 'neutral', hole=[(1, '-=*_<>+|:.1['), (1, '-=* >\t|'), (1, '-=* a|')], parser=['github', 'redcarpet'], ordered=[False, True]))
    # ends of documents
    J.append(djob(['# x', ['# a', (2, ' \\#\t')]], 'reach', parser=PARSERS))
    J.append(djob(['# x', [(2, ' \t#')], [(1, ' \t\v')]], 'reach', parser=['github', 'cmark', 'redcarpet'], no_links=True))
    # long lines and long documents
    J.append(djob([['x', (1, 'LINE', (1, 9000)), '# y'], ['# a', (1, H, (1, 500)), ' b'], '# z'], 'reach', parser=['github', 'redcarpet'], no_links=True))
    J.append(djob([[('# ', (5000,)), (1, H)], '# z'], 'reach', parser=['github', 'redcarpet'], no_links=True))
    J.append(djob(['# a', [('x', (2048, 4096, 8192)), (2, H), '# y'], '# a'], 'reach', parser=['cmark']))
    J.append(djob([rep(['x', (1, H)], (1, 60)), rep(['# ', (1, 'ab')], (1, 20)), ['``', (1, '`~')], '# c'], 'reach', parser=['github']))
    J.append(djob([rep('# a', (1, 20)), '# a'], 'neutral', hole=['x', (1, 'LINE', (1, 5000))], parser=['github', 'redcarpet']))
    # after other calls
    J.append(djob(['# x', ['#', (2, H), 'a'], '```', '# y'], 'after', parser=['github', 'redcarpet'], keep=6))
    J.append(djob([[(1, ('\ufeff', ' ', '#', '\u200b')), '# a'], '# b'], 'reach', parser=['github', 'redcarpet']))
    J.append(djob([['# ', (1, ('\ufeff', 'a'))], [(1, ('\ufeff', '#', ' ')), '# b']], 'reach', parser=['github', 'redcarpet'], no_links=True))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('documents of two to five lines with one or two symbolic lines (2 or 3 characters over ASCII and the Unicode representatives, 3 (4) '
          'over fences and headings); file and standard input; LF, CRLF, CR and all mixtures; one neutral line of 2 (3) or 4 (5) characters at '
          'every position; a missing input file; '
          'lines of up to 10000 characters and documents of up to 82 lines; '
          'a byte order mark; documents after an earlier call')
OUTSIDE = 'longer documents; setext headings, HTML blocks and lists, which md_toc does not model'
ASSUMPTIONS = ['standard input is a text stream with universal newlines, as Python opens it']
