from md_toc import api
from props.common import build_lines, build, job, djob, tjob, doc, pick_opts, toc_of, SOME, MANY, doc_after
from props.ref import PARSERS, CMARK_LIKE

MSG = 'each TOC line is rendered from its heading and the options'
BUL = ['-', '+', '*']


def docs(ctx, tpl, **opts):
    doc(ctx, tpl, MSG, **opts)


def element(ctx, parsers):
    """one entry with any number"""
    parser = ctx.pick('parser', parsers)
    ordered = ctx.flag('ordered')
    marker = ctx.pick('marker', ['.'] if parser == 'redcarpet' and ordered else ['.', ')'] if ordered else BUL)
    n = ctx.int('n', 1, 999999999)
    label, anchor = ctx.str('l', 2, 'a[\\ '), ctx.str('a', 1, 'a-')
    no_links = ctx.flag('no_links')
    h = dict(header_type=1, text_original=label, text_anchor_link=anchor, visible=True)
    r = ctx.call(api.build_toc_line_without_indentation, h, ordered, no_links, n, parser, marker)
    want = (str(n) + marker if ordered else marker) + ' ' + (label if no_links else '[' + label + '](#' + anchor + ')')
    ctx.check(r.ok, 'returns')
    ctx.check(ctx.same(r.value, want), MSG)


def indent(ctx, n):
    s = ctx.str('s', 2, 'a -')
    k = ctx.pick('k', range(n))
    r = ctx.call(api.build_toc_line, s, k)
    ctx.check(r.ok, 'returns')
    ctx.check(ctx.same(r.value, ' ' * k + s), 'the indentation is that many spaces')


def longlabel(ctx, parts, parsers):
    """one entry with a long label and anchor"""
    parser = ctx.pick('parser', parsers)
    t = build(ctx, parts)
    no_links = ctx.flag('no_links')
    h = dict(header_type=1, text_original=t, text_anchor_link=t, visible=True)
    r = ctx.call(api.build_toc_line_without_indentation, h, False, no_links, 1, parser, '-')
    ctx.check(r.ok, 'returns')
    ctx.check(ctx.same(r.value, '- ' + (t if no_links else '[' + t + '](#' + t + ')')), MSG)


def wrong_marker(ctx, parsers):
    """an entry is never rendered with a marker of the other kind of list"""
    parser = ctx.pick('parser', parsers)
    ordered = ctx.flag('ordered')
    ok = (['.'] if parser == 'redcarpet' else ['.', ')']) if ordered else BUL
    marker = ctx.pick('marker', ['-', '+', '*', '.', ')', 'x', '#', ',', '--', '1.'])
    ctx.assume(marker not in ok)
    h = dict(header_type=1, text_original=ctx.str('l', 1, 'ab'), text_anchor_link='a', visible=True)
    r = ctx.call(api.build_toc_line_without_indentation, h, ordered, ctx.flag('no_links'), ctx.int('n', 1, 99), parser, marker)
    ctx.check(r.kind == 'exc', 'refused')


def which(ctx, tpl, parser):
    """marker and newline string do not change what is listed"""
    lines = build_lines(ctx, tpl)
    o = dict(parser=parser, no_indentation=True, keep=6)
    a = toc_of(ctx, lines, o)
    nl = ctx.pick('nl', ['\n', '\r', '\r\n'])
    m = ctx.pick('m', BUL)
    b = toc_of(ctx, lines, dict(o, marker=m, newline=nl))
    ctx.check(a.kind == b.kind, 'same outcome')
    if a.ok:
        x = a.value.split('\n')
        y = b.value.split(nl)
        ctx.check(len(x) == len(y), 'same entries')
        for i in range(len(x)):
            ctx.check(ctx.same(x[i][1:], y[i][1:]) and (i == len(x) - 1 or y[i][0] == m), 'same entry, other marker')


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, MSG, **dict(dict(), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    NL = ['\n', '\r\n', '\r']
    for p in PARSERS:
        J.append(djob(['# a', ['#', (1, '# '), ' b', (1, 'cC.')]], parser=p, marker=BUL, newline=NL, no_links=[False, True]))
        J.append(djob(['# a', ['#', (1, '# '), ' b']], parser=p, ordered=True, constant=[False, True], marker=BUL + ['.', ')'],
                      newline=['\n', '\r\n'], no_links=[False, True]))
        J.append(djob(['# a', ['#', (1, '# '), ' b'], '# c'], parser=p, ordered=False, constant=True, marker=BUL + ['.', ')'],
                      no_indentation=[False, True]))
    J.append(djob([['# ', (2, 'LINE')]], parser=['github', 'cmark'], no_links=True, marker=BUL))
    J.append(djob([['# ', (1, 'LINE'), 'a']], parser=['redcarpet'], no_links=True, marker=BUL))
    J.append(djob([['# ', (1, 'LINE'), 'a']], parser=PARSERS, newline=NL))
    J.append(djob(['# \\[a\\]', ['# [', (2, ('a', ']', '\\'))]], parser=['gitlab'], ordered=[False, True]))
    J.append(job('element', parsers=PARSERS))
    J.append(job('indent', n=24))
    for p in ('github', 'redcarpet'):
        J.append(djob([[(3, ('#', ' ', 'a'))], ['# ', (1, 'LINE')]], 'which', parser=p))
    J.append(djob(['# a', '## b', '# c'], parser=PARSERS, newline=['\r', ' | ', '']))
    # long labels, anchors and lists; markers of the other kind of list
    J.append(tjob('longlabel', [(1, 'a[ b', MANY), (1, 'ab')], parsers=PARSERS))
    J.append(djob([['# ', (1, 'aB', (1, 40, 256, 257, 900)), 'c'], '# d'], parser=PARSERS, no_links=[False, True]))
    J.append(djob([['# ', (1, 'aB', (1000, 1001, 1500)), 'c'], '# d'], parser=['redcarpet'], no_links=[False, True]))
    J.append(job('wrong_marker', parsers=PARSERS))
    # after other calls
    J.append(djob(['# a', ['# b', (1, '[ \\]')], '## c'], 'after', parser=['github', 'redcarpet'], no_links=[False, True], ordered=[False, True],
                  newline=['\n', '\r\n']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('documents of one to three headings with one or two symbolic characters, all combinations of parser, list marker, ordered, constant, '
          'links, indentation and newline string; one entry with any number 1 to 999999999; '
          'labels of up to 900 characters; every marker that does not belong to the kind of list; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer documents'
ASSUMPTIONS = ['props/ref.py:ref_toc states how a TOC is put together']
