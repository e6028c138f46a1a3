from md_toc import api
from props.common import build, build_lines, tjob, job, djob, toc_of, expect_toc, rep, SOME, MANY, HUGE, doc_after
from props.ref import ref_atx, CMARK_LIKE


def expect(ctx, el, ref, what):
    if ref is None:
        ctx.check(el['header_type'] is None and el['header_text_trimmed'] is None, what + ': not a heading')
        ctx.check(not el['visible'], what + ': a line that is no heading is not visible')
    else:
        ctx.check(el['header_type'] == ref[0], what + ': level')
        ctx.check(el['header_text_trimmed'] is not None, what + ': is a heading')
        ctx.check(ctx.same(el['header_text_trimmed'], ref[1]), what + ': text')
        ctx.check(el['visible'], what + ': visible')


def line(ctx, parts, parsers):
    """one line, verbatim text"""
    parser = ctx.pick('parser', parsers)
    s = build(ctx, parts)
    r = ctx.call(api.get_atx_heading, s, 6, parser, True)
    ctx.check(r.ok, 'heading parsing returns')
    ctx.check(len(r.value) == 1, 'one line gives one element')
    expect(ctx, r.value[0], ref_atx(s, parser), 'line')


def lines(ctx, tpl, parsers, keep=6):
    """several lines in one call: each one is judged on its own"""
    parser = ctx.pick('parser', parsers)
    sep = ctx.pick('sep', ['\n', '\r', '\r\n'])
    ls = build_lines(ctx, tpl)
    r = ctx.call(api.get_atx_heading, sep.join(ls) + ctx.pick('last', ['', sep]), keep, parser, True)
    ctx.check(r.ok, 'heading parsing returns')
    ctx.check(len(r.value) == len(ls), 'one element per line')
    for i in range(len(ls)):
        ref = ref_atx(ls[i], parser)
        if ref is not None and ref[0] > keep:
            ctx.check(r.value[i]['header_type'] == ref[0] and not r.value[i]['visible'], 'hidden heading in several lines')
        else:
            expect(ctx, r.value[i], ref, 'line of several')


def docs(ctx, tpl, parsers):
    """the same rule seen from the TOC"""
    parser = ctx.pick('parser', parsers)
    ls = build_lines(ctx, tpl)
    opts = dict(parser=parser, no_links=True, no_indentation=True, keep=6)
    r = toc_of(ctx, ls, opts)
    expect_toc(ctx, r, ls, opts, 'the TOC lists exactly the headings')


H = ('#', ' ', '\t', 'a', '\\')
TWO = ['github', 'cmark']


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'the TOC lists exactly the headings', **dict(dict(no_links=True, no_indentation=True, keep=6), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(1, 6 if T else 5):
        J.append(tjob('line', [(n, 'LINE')], parsers=CMARK_LIKE))
    for n in range(5, 9 if T else 8):
        J.append(tjob('line', [(n, H)], parsers=TWO))
    J.append(tjob('line', [(2, 'LINE'), '#', (3 if T else 2, 'LINE')], parsers=CMARK_LIKE))
    J.append(tjob('line', ['   ', (2, H), '### ', (3, H)], parsers=TWO))
    J.append(tjob('line', ['#####', (3, H), 'a', (2, H)], parsers=TWO))
    J.append(tjob('line', ['# a', (5 if T else 4, H)], parsers=CMARK_LIKE))
    J.append(tjob('line', ['## ', (1, 'LINE'), ' ', (1, 'LINE'), '#', (1, 'LINE')], parsers=CMARK_LIKE))
    J.append(tjob('line', ['# ', (2, 'LINE'), ' ##', (1, 'LINE')], parsers=CMARK_LIKE))
    J.append(djob([[(3, H), 'b'], ['#', (3, H), 'b']], 'lines', parsers=TWO))
    J.append(djob([['b', (1, H)], [(3, H)], ['# ', (2, H), 'b']], 'lines', parsers=TWO))
    J.append(djob([['##', (2, H), 'b'], ['#', (2, H), 'b'], ['###', (1, H), 'b']], 'lines', parsers=TWO, keep=2))
    # whatever a line is, the next one is judged on its own
    J.append(djob([[(1, '#\\ a\t'), (4, ' #'), (1, ' a\t')], '## b'], 'lines', parsers=TWO))
    J.append(djob([['#####', (3, '# a'), (1, ' #\\')], ['  ', (2, ' #'), '# b'], '# c'], 'lines', parsers=TWO))
    J.append(djob([[(1, '#\\ a\t'), (4, ' #'), (1, ' a\t')], '## b'], 'docs', parsers=TWO))
    J.append(djob([['x'], [(3 if T else 2, 'LINE')], ['y']], 'docs', parsers=CMARK_LIKE))
    J.append(djob([['#', (2, 'LINE')]], 'docs', parsers=CMARK_LIKE))
    J.append(djob([[(5 if T else 4, H)], ['# b']], 'docs', parsers=TWO))
    # every indentation and level, any character after the hashes
    J.append(tjob('line', [(' ', (0, 1, 2, 3, 4)), ('#', (1, 2, 5, 6, 7)), (1, 'LINE'), 'b', (1, H)], parsers=TWO))
    J.append(tjob('line', [(' ', (0, 3)), ('#', (1, 6)), ' b', (1, 'LINE'), ('#', (1, 2)), (1, 'LINE')], parsers=TWO))
    # long runs: one symbolic character repeated many times, at each place of a heading
    J.append(tjob('line', [(1, 'LINE', MANY), '#', (1, 'LINE', MANY)], parsers=CMARK_LIKE))
    J.append(tjob('line', ['#', (1, H, SOME), 'a', (1, H, SOME), (1, H, SOME)], parsers=TWO))
    J.append(tjob('line', ['# ', (1, 'LINE', HUGE), (1, H), (1, H, MANY), (1, H, HUGE)], parsers=TWO))
    J.append(tjob('line', ['#', (2, H, MANY), ' ', (2, H, SOME)], parsers=TWO))
    J.append(djob([rep('b', (1, 4, 30)), [(2, H), '# a'], rep('# c', (1, 12)), '#d'], 'lines', parsers=TWO))
    J.append(djob([rep('b', (1, 30)), [(1, H), '# a'], rep(['#', (1, H), 'c'], (1, 12)), [(1, H), '# d']], 'docs', parsers=TWO))
    # after other calls
    J.append(djob([['#', (2, H), 'a'], '#\tb', '# c #'], 'after', parser=['github', 'cmark']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('lines of at most 4 (thorough 5) characters over ASCII and the Unicode representatives for all five parsers, at most 7 (8) '
          'characters over # blank tab letter backslash, templates with symbolic holes around runs of # and closing sequences; '
          'up to three lines per call with LF, CR and CRLF between them; documents of up to three lines; lines made of '
          'up to four runs of one symbolic character (or pair) repeated up to 1100 times, and calls and documents of up to 43 lines with symbolic ones; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer lines; empty first and last lines of a multi-line call, which are dropped by design'
ASSUMPTIONS = ['props/ref.py:ref_atx states the ATX heading rule of GFM 0.29 (blank = space) and CommonMark 0.30 (space or tab)']
