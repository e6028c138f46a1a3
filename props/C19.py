from md_toc import api
from props.common import build, build_lines, job, djob, tjob, pick_opts, toc_of_text, SOME, MANY
from props.ref import PARSERS, CMARK_LIKE

DOCUMENTED = ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel', 'GithubOverflowOrderedListMarker',
              'TocDoesNotRenderAsCoherentList', 'StringCannotContainNewlines')


def fine(ctx, r, what, errors=()):
    ctx.check(r.kind != 'hang', what + ' terminates')
    ctx.check(r.ok or (r.kind == 'exc' and r.value in errors), what + ' returns or raises a documented error')


def emph(ctx, parts, parsers=('github',)):
    s = build(ctx, parts)
    p = ctx.pick('parser', parsers)
    r = ctx.call(api.remove_emphasis, s, p)
    fine(ctx, r, 'remove_emphasis')
    ctx.check(len(r.value) <= len(s), 'only removes characters')


def line(ctx, parts, parsers=PARSERS):
    """every function on one line"""
    s = build(ctx, parts)
    p = ctx.pick('parser', parsers)
    no_links = ctx.flag('no_links')
    h = ctx.call(api.get_atx_heading, s, ctx.pick('keep', [1, 6]), p, no_links)
    fine(ctx, h, 'get_atx_heading', DOCUMENTED[:2])
    t = ctx.call(api.remove_html_tags, s, p)
    fine(ctx, t, 'remove_html_tags')
    a = ctx.call(api.build_anchor_link, s, {}, p)
    fine(ctx, a, 'build_anchor_link', () if p == 'redcarpet' else ('StringCannotContainNewlines',))


def html(ctx, parts, parsers=('github', 'cmark')):
    s = build(ctx, parts)
    fine(ctx, ctx.call(api.remove_html_tags, s, ctx.pick('parser', parsers)), 'remove_html_tags')


def anchor(ctx, parts, parsers=('github', 'gitlab', 'redcarpet')):
    s = build(ctx, parts)
    fine(ctx, ctx.call(api.build_anchor_link, s, {}, ctx.pick('parser', parsers)), 'build_anchor_link', ('StringCannotContainNewlines',))


def atx(ctx, parts, parsers=PARSERS):
    s = build(ctx, parts)
    fine(ctx, ctx.call(api.get_atx_heading, s, 3, ctx.pick('parser', parsers), ctx.flag('no_links')), 'get_atx_heading', DOCUMENTED[:2])


def doc(ctx, parts, via=('file', 'stdin'), **opts):
    """a whole text"""
    opts = pick_opts(ctx, opts)
    text = build(ctx, parts)
    r = toc_of_text(ctx, text, opts, ctx.pick('via', via))
    errs = ['GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel', 'TocDoesNotRenderAsCoherentList']
    fine(ctx, r, 'build_toc', errs)


def long(ctx, c, n):
    """long runs of one construct, with a symbolic character at both ends"""
    s = ctx.char('a', 'a *[]()<>`\\&_"') + c * n + ctx.char('b', 'a *[]()<>`\\&_"')
    fine(ctx, ctx.call(api.remove_emphasis, s, 'github'), 'remove_emphasis')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    S = ('[', ']', '(', ')', '<', '>', '*', '\\', 'a')
    Q = ('"', "'", '(', ')', '\\', ' ', ']', 'a')
    E = ('&', '#', ';', 'x', 'X', '1', 'a', '0')
    B = ('`', '*', '\\', 'a')
    U = ('*', '_', ' ', 'a', '.')
    J.append(tjob('emph', [(2, 'LINE')], parsers=['github', 'cmark']))
    J.append(tjob('emph', [(5 if T else 4, S)]))
    J.append(tjob('emph', ['[a](', (5 if T else 4, S + ('"', ' ') if T else ('(', ')', '<', '>', '\\', ' ', '"'))]))
    J.append(tjob('emph', ['[a](b ', (5 if T else 4, Q)]))
    J.append(tjob('emph', ['[a]', (4, ('[', ']', '\\', 'a', '!'))]))
    J.append(tjob('emph', ['[', (5 if T else 4, ('[', ']', '!', '*', '\\'))]))
    J.append(tjob('emph', ['![', (4 if T else 3, ('[', ']', '(', ')', '*', '!'))]))
    J.append(tjob('emph', ['&', (5 if T else 4, E)]))
    J.append(tjob('emph', ['&#', (2, 'LINE'), ';']))
    J.append(tjob('emph', ['&#x', (2, 'LINE'), ';']))
    J.append(tjob('emph', ['&', (2, 'LINE'), ';']))
    J.append(tjob('emph', [(6 if T else 5, B)]))
    J.append(tjob('emph', ['``', (4 if T else 3, B), '`']))
    J.append(tjob('emph', [(6 if T else 5, U)]))
    J.append(tjob('emph', ['*_*', (4 if T else 3, U), '*_']))
    J.append(tjob('emph', ['<', (4 if T else 3, ('a', '/', '!', '?', '-', '>', ':', '@', '"', '=', ' '))]))
    J.append(tjob('emph', ['<', (2, 'LINE'), '>']))
    J.append(tjob('emph', ['<a', (2, 'LINE')]))
    J.append(tjob('emph', ['<!', (4 if T else 3, ('-', '>', '[', 'A', ']'))]))
    J.append(tjob('emph', ['<![CDATA[', (3, (']', '>', 'a'))]))
    J.append(tjob('emph', ['*', (1, 'LINE'), '[', (1, 'LINE')]))
    J.append(tjob('emph', ['[', (1, 'LINE'), '](', (1, 'LINE')]))
    J.append(tjob('emph', ['[a](<', (1, 'LINE'), (1, 'LINE')]))
    J.append(tjob('emph', ['\\', (2, 'LINE')]))
    J.append(tjob('emph', [(1, 'LINE'), '\\']))
    J.append(tjob('emph', ["'\"-.", (3, ('"', "'", '-', '.', 'a', ' '))]))
    J.append(tjob('emph', ['a@', (2, 'LINE'), '.']))
    J.append(tjob('line', [(2, 'LINE')], parsers=['github', 'gitlab', 'cmark'] if not T else CMARK_LIKE))
    J.append(tjob('line', ['a', (2, 'LINE')], parsers=['redcarpet']))
    J.append(tjob('line', [(1, 'LINE')], parsers=['redcarpet']))
    J.append(tjob('html', ['<', (5 if T else 4, ('a', '/', '!', '?', '-', '>', '"', "'", '=', ' '))]))
    J.append(tjob('html', ['<', (2, 'LINE'), '>', (1, 'LINE')]))
    J.append(tjob('html', ['<a ', (4 if T else 3, ('a', '"', "'", '=', ' ', '>', '/', '`'))]))
    J.append(tjob('anchor', ['a&', (2, 'LINE'), ';'], parsers=['redcarpet']))
    J.append(tjob('anchor', [(4, ('<', '>', '&', ';', 'a', ' '))]))
    J.append(tjob('anchor', ['a', (2, 'ALL')]))
    J.append(tjob('atx', [(4, ('#', ' ', '\\', 'a', '\t', '[', '\n'))]))
    J.append(tjob('atx', ['#', (2, 'ALL')]))
    D = ('#', ' ', 'a', '\n', '`')
    J.append(tjob('doc', [(5, D)], parser=['github', 'redcarpet']))
    J.append(tjob('doc', ['# a\n', (4, D), '\n```\n', (2, D)], parser=['cmark'], ordered=[False, True]))
    J.append(tjob('doc', ['#', (2, 'LINE'), 'a\n', (1, 'ALL')], parser=['github', 'gitlab', 'redcarpet'], no_links=[False, True], via=['file']))
    J.append(tjob('doc', ['# ', (3, ('[', ']', '(', ')', '\\', '*'))], parser=['github', 'cmark']))
    J.append(tjob('doc', ['#', (2, '# '), ' a\n#', (2, '# '), ' b\n#', (2, '# '), ' c'], parser=['github', 'redcarpet'], keep=6,
                  ordered=[False, True], no_coherence=[False, True], via=['file']))
    for c in ('*', '_', '[', ']', '(', '![', '[a](', '`', '``', '<', '&', '\\', '*a ', '_a*', '"', '<a ', '&#', ']('):
        J.append(job('long', c=c, n=24 if T else 12))
    if T:
        J.append(tjob('emph', [(3, 'LINE')]))
        J.append(tjob('emph', [(3, 'PRINT'), ')']))
        J.append(tjob('line', [(3, 'ALINE')], parsers=['github', 'redcarpet']))
    # long runs
    R = (2, 33, 129, 1001)
    J.append(tjob('emph', [(1, S + ('&', '_', '!', '"', '`', ' '), R), (1, S), (1, S + ('`',), SOME)]))
    J.append(tjob('emph', [('`', (1, 79, 999, 1000, 1001, 1002, 1003)), (1, B), ('`', (1, 1000, 1001)), (1, B)]))
    J.append(tjob('emph', [(2, S, (1, 20, 100)), (1, S)]))
    J.append(tjob('emph', ['[a](', (1, ('(', ')', '<', '\\', '"', 'a', ' '), (1, 31, 32, 33, 200)), ')']))
    J.append(tjob('html', [(1, ('a', '<', '>', '!', '-', '/', ' '), R), '>'], parsers=['github']))
    J.append(tjob('html', ['<a ', (2, ('a', '=', '"', ' ', "'"), (1, 5, 60)), '>'], parsers=['cmark']))
    J.append(tjob('line', ['# ', (1, 'LINE', (1, 300, 999, 1000, 5000)), (1, '# ')], parsers=['github', 'cmark']))
    J.append(tjob('line', ['# a', (1, 'LINE', (1, 300, 999, 1000, 5000))], parsers=['redcarpet']))
    J.append(tjob('doc', [(2, ('#', ' ', 'a', '\n', '`'), (1, 40, 300)), 'a\n'], parser=['github', 'cmark'], via=['file']))
    J.append(tjob('doc', [('# a\n## b\n', (1, 60)), (2, ('#', ' ', 'a'))], parser=['github', 'redcarpet'], ordered=[False, True], via=['file']))
    return J


BUDGET = dict(quick=300, thorough=2400)
BOUNDS = ('lines of 2 (thorough 3) characters over ASCII and the Unicode representatives; lines of 4 or 5 (thorough 5 or 6) characters over the '
          'alphabets of links, titles, entities, code spans, emphasis, tags, comments; the same inside fixed prefixes; runs of one construct '
          '12 (thorough 24) long; texts of up to six symbolic characters as documents; step limit 600000 per call stands for a hang; '
          'runs of up to 1003 copies of a symbolic character or pair, lines of up to 5000 characters, documents of up to 300 lines')
OUTSIDE = 'longer lines; lone surrogates; running time beyond termination'
ASSUMPTIONS = ['a call that makes more than 600000 steps on these short inputs does not terminate; the replay confirms it with a time limit']
