import copy

from md_toc import api
from md_toc.constants import parser as tables
from props.common import build, build_lines, job, djob, tjob, pick_opts, toc_of, toc_of_text, expect_toc, SOME, MANY, rep
from props.ref import PARSERS

PAIRS = [('goldmark', 'cmark'), ('commonmarker', 'github')]
MSG = 'an alias gives the same result'


def line(ctx, parts, which):
    a, b = ctx.pick('pair', PAIRS)
    s = build(ctx, parts)
    if which == 'atx':
        f, args = api.get_atx_heading, lambda p: (s, 3, p, no_links)
        no_links = ctx.flag('no_links')
    elif which == 'html':
        f, args = api.remove_html_tags, lambda p: (s, p)
    elif which == 'emph':
        f, args = api.remove_emphasis, lambda p: (s, p)
    elif which == 'punct':
        f, args = api.anchor_link_punctuation_filter, lambda p: (s, p)
    elif which == 'anchor':
        f, args = api.build_anchor_link, lambda p: (s, {}, p)
    elif which == 'open':
        f, args = api.is_opening_code_fence, lambda p: (s, p)
    elif which == 'close':
        fence = ctx.pick('fence', ['```', '~~~', '````'])
        end = ctx.flag('end')
        f, args = api.is_closing_code_fence, lambda p: (s, fence, end, p)
    elif which == 'indent':
        f, args = api.is_valid_code_fence_indent, lambda p: (s, p)
    else:
        f, args = api.get_md_header, lambda p: (s, {}, 3, p, no_links)
        no_links = ctx.flag('no_links')
    ctx.check(ctx.same(ctx.call(f, *args(a)), ctx.call(f, *args(b))), MSG + ': ' + which)


def steps(ctx):
    """numbering, indentation and rendering of one entry"""
    a, b = ctx.pick('pair', PAIRS)
    n = ctx.int('n', 1, 999999999)
    prev, cur = ctx.pick('prev', range(0, 7)), ctx.pick('cur', range(1, 7))
    out = []
    for p in (a, b):
        c = {'h%d' % cur: n}
        r = ctx.call(api.increase_index_ordered_list, c, prev, cur, p)
        out.append((r, c['h%d' % cur]))
    ctx.check(ctx.same(out[0], out[1]), MSG + ': increase_index_ordered_list')


def render(ctx):
    a, b = ctx.pick('pair', PAIRS)
    ordered, marker, no_links = ctx.flag('ordered'), ctx.pick('marker', ['-', '+', '*', '.', ')', 'x']), ctx.flag('no_links')
    prev, cur = ctx.pick('prev', range(0, 4)), ctx.pick('cur', range(1, 4))
    out = []
    for p in (a, b):
        h = dict(header_type=cur, text_original=ctx.str('t', 1, 'ab') if p == a else t, text_anchor_link='a', visible=True)
        t = h['text_original']
        r = ctx.call(api.build_toc_line_without_indentation, h, ordered, no_links, 1, p, marker)
        log = api.init_indentation_log(p, marker)
        q = ctx.call(api.compute_toc_line_indentation_spaces, cur, prev, p, ordered, marker, log, 1)
        out.append((r, q, log))
    ctx.check(ctx.same(out[0], out[1]), MSG + ': rendering')


def docs(ctx, tpl, **opts):
    a, b = ctx.pick('pair', PAIRS)
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    x = toc_of(ctx, lines, dict(opts, parser=a))
    y = toc_of(ctx, lines, dict(opts, parser=b))
    ctx.check(ctx.same(x, y), MSG + ': build_toc')


def tables_kept(ctx, tpl):
    """calls change nothing for later calls"""
    snap = copy.deepcopy(tables)
    lines = build_lines(ctx, tpl)
    first = ctx.pick('first', PARSERS)
    p = ctx.pick('parser', PARSERS)
    o = dict(parser=p, keep=6, no_coherence=True, ordered=ctx.flag('ordered'))
    a = toc_of(ctx, lines, o)
    toc_of(ctx, lines, dict(parser=first, ordered=ctx.flag('o2'), constant=ctx.flag('c2'), marker=ctx.pick('m2', ['-', '.', ')', '*']), keep=1))
    b = toc_of(ctx, lines, o)
    ctx.check(ctx.same(a, b), 'a call does not influence later ones')
    ctx.check(tables == snap, 'the parser tables are unchanged')


def alias_after(ctx, tpl, **opts):
    """the alias after other parsers"""
    a, b = ctx.pick('pair', PAIRS)
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    first = ctx.pick('first', ['github', 'cmark', 'gitlab', 'redcarpet'])
    x = toc_of(ctx, lines, dict(opts, parser=b)) if ctx.flag('fresh') else None
    toc_of(ctx, lines, dict(opts, parser=first))
    y = toc_of(ctx, lines, dict(opts, parser=a))
    z = toc_of(ctx, lines, dict(opts, parser=b))
    ctx.check(ctx.same(y, z), MSG + ' after other calls')
    if x is not None:
        ctx.check(ctx.same(x, z), 'a call does not influence later ones')
    expect_toc(ctx, y, lines, dict(opts, parser=b), MSG + ' after other calls')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    H = ('#', ' ', '\t', 'a', '\\', '[')
    F = ('`', '~', ' ', '\t', 'a')
    for fn in ('atx', 'header', 'html', 'emph', 'punct', 'anchor', 'open', 'close', 'indent'):
        J.append(tjob('line', [(3 if T else 2, 'LINE')], which=fn))
    J.append(tjob('line', ['#', (5 if T else 4, H)], which='atx'))
    J.append(tjob('line', ['#', (3, 'LINE')], which='atx'))
    J.append(tjob('line', ['# ', (1, 'LINE'), 'a' * 997, (2, ('a', ' ', '\\'))], which='atx'))
    J.append(tjob('line', ['<', (3, ('a', '/', '!', '?', ' ', '-', '\t', '=')), '>'], which='html'))
    J.append(tjob('line', ['<a b', (2, 'LINE'), '>'], which='html'))
    J.append(tjob('line', ['</b', (2, (' ', '\t', '\f', 'a')), '>'], which='html'))
    J.append(tjob('line', ['<!', (3, ('A', 'a', ' ', '-')), '>'], which='html'))
    J.append(tjob('line', ['<', (1, 's'), (1, 'cC'), 'ript', (1, 'x >'), '>'], which='html'))
    J.append(tjob('line', ['*a', (3, ('*', '_', ' ', 'a')), '_*'], which='emph'))
    J.append(tjob('line', ['a--', (2, ('-', '_', ' ', '.')), '-'], which='anchor'))
    J.append(tjob('line', [(5, F)], which='open'))
    J.append(tjob('line', ['~~~', (2, 'LINE')], which='open'))
    J.append(tjob('line', [(5, F)], which='close'))
    J.append(tjob('line', ['```', (2, 'LINE')], which='close'))
    J.append(tjob('line', [' ', (4, F)], which='indent'))
    J.append(job('steps'))
    J.append(job('render'))
    J.append(djob([['#', (2, H), ' a'], ['#', (2, H), 'a']], ordered=[False, True], marker=['-', '.', ')']))
    J.append(djob([['#', (3, 'LINE')]], no_links=[False, True], keep=6))
    J.append(djob([['```', (1, F)], '# a', [(4, F)], '#\tb'], constant=[False, True]))
    J.append(djob(['# a--b', ['# a', (1, 'LINE'), '-b']], no_indentation=[False, True]))
    J.append(djob([['# ', (1, 'aA')], '# a'], 'tables_kept'))
    # long lines and documents
    for fn in ('atx', 'header', 'html', 'emph', 'punct', 'anchor', 'open', 'close', 'indent'):
        J.append(tjob('line', [(1, '# `~<*', (1, 7)), (1, ('a', '-', '*', '\t')), (1, ('a', ' ', '\\', '['), (1, 40, 1001)), (1, ('a', '>'))], which=fn))
    J.append(djob([rep(['#', (1, '# '), ' a'], SOME), rep('```', (1, 2)), rep('# b', SOME)], ordered=[False, True]))
    # after other calls
    J.append(djob(['```', '# a', ['```', (1, ' \ta')], '# b', '#\tc'], 'alias_after', no_links=[False, True]))
    J.append(djob([['# <', (1, 'aA!/'), (1, 'bB'), (1, ' >\t'), '>x', (1, '-.')], '# a--b'], 'alias_after'))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('every public function with a parser argument, on lines of 2 (thorough 3) characters over ASCII and the Unicode representatives and '
          'on longer templates; numbering from any number; whole documents with symbolic lines and options; sequences of three calls; '
          'lines of up to 1009 characters and documents of up to 36 lines made of repeated symbolic parts; '
          'an alias after other parsers')
OUTSIDE = 'longer lines'
ASSUMPTIONS = []
