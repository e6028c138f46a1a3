from md_toc import api
from props.common import build, tjob, djob, doc, assume_not_in, SOME, MANY, doc_after
from props.ref import ref_slug, CMARK_LIKE, LETTER, SPACE_ONLY


def outside(ctx, s, parser):
    """inputs outside the claims of C06 and C07"""
    assume_not_in(ctx, s, '??>', ']]]>')
    for i in range(len(s) - 2):
        ctx.assume(ctx.neg(ctx.all([s[i] == '<', s[i + 1] == '!', s[i + 2] in LETTER])))
    if '<' in s:
        assume_not_in(ctx, s, '\x00', '\v', '\f')
        if parser in SPACE_ONLY:
            assume_not_in(ctx, s, '\t')


def line(ctx, parts, parsers):
    parser = ctx.pick('parser', parsers)
    s = build(ctx, parts)
    outside(ctx, s, parser)
    r = ctx.call(api.build_anchor_link, s, {}, parser)
    ctx.check(r.ok, 'anchor building returns')
    ctx.check(ctx.same(r.value, ref_slug(s, parser)), 'the anchor follows the slug rule')


def twice(ctx, parts, other, parsers):
    """the anchor depends on nothing but the text and the parser"""
    parser = ctx.pick('parser', parsers)
    s = build(ctx, parts)
    t = build(ctx, other, 't')
    r = ctx.call(api.build_anchor_link, s, {}, parser)
    ctx.call(api.build_anchor_link, t, {}, ctx.pick('between', ['gitlab', 'github', 'redcarpet']))
    q = ctx.call(api.build_anchor_link, s, {}, parser)
    ctx.check(ctx.same(r, q), 'the anchor does not depend on earlier calls')


def docs(ctx, tpl, parsers):
    doc(ctx, tpl, 'the anchors in the TOC follow the slug rule', parser=list(parsers), keep=6)


W = ('a', 'A', ' ', '-', '_', '*', '.')
G = ('a', '-', ' ', '.')
X = ('_', 'a', '*', ' ')
TWO = ['github', 'gitlab']


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'the anchors in the TOC follow the slug rule', **dict(dict(keep=6), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(0, 4 if T else 3):
        J.append(tjob('line', [(n, 'LINE')], parsers=CMARK_LIKE))
    J.append(tjob('line', ['a', (1, 'LINE'), 'b', (1, 'LINE'), 'c'], parsers=CMARK_LIKE))
    J.append(tjob('line', [(1, 'LINE'), (1, ('_', '-', ' ', '.')), (1, 'LINE')], parsers=TWO))
    J.append(tjob('line', ['a', (1, 'LINE'), (1, ('_', '-', ' ')), (1, 'LINE'), 'b'], parsers=TWO))
    J.append(tjob('line', ['A ', (1, 'LINE'), '- ', (1, 'LINE')], parsers=CMARK_LIKE))
    J.append(tjob('line', [(5 if T else 4, W)], parsers=CMARK_LIKE))
    J.append(tjob('line', [(7 if T else 5, G)], parsers=TWO))
    J.append(tjob('line', ['_a_ ', (4 if T else 3, X), '_b'], parsers=TWO))
    J.append(tjob('line', ['<', (2, ('a', 'B', '/', ' ', '>')), '>', (2, X)], parsers=CMARK_LIKE))
    J.append(tjob('line', ['_<i', (2, ('>', ' ', '_', '/')), '_>', (1, X)], parsers=TWO))
    J.append(tjob('line', ['<![CDATA[', (2, ('a', ']', '>', '_')), ']]>_', (1, X), '_'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['_<!--', (2, ('a', '-', '_', '>')), '-->_b', (1, X)], parsers=CMARK_LIKE))
    J.append(tjob('line', ['_`', (2, ('`', '_', 'a')), '`', (2, X)], parsers=TWO))
    J.append(tjob('line', ['x', (2, ('-', ' ', '&', '/')), 'y', (2, ('-', ' ', '&', '/')), 'z'], parsers=TWO))
    J.append(tjob('twice', [(2, W)], other=[(1, W)], parsers=TWO))
    J.append(tjob('line', ['a' * 30, (1, 'LINE'), 'b' * 30, (2, W)], parsers=TWO))
    J.append(djob([['# ', (2, ('a', 'B', '-', '_', '.', '\xe9', '\u0130', '\\', '*'))]], 'docs', parsers=CMARK_LIKE))
    J.append(djob([['# x', (3, ('a', '-', ' ', '_', '*', '&'))], '# y'], 'docs', parsers=TWO))
    # long texts
    J.append(tjob('line', [(1, 'LINE', MANY), 'b', (1, W, SOME)], parsers=TWO))
    J.append(tjob('line', ['b', (2, W, (1, 9, 41, 130)), 'c'], parsers=TWO))
    J.append(tjob('line', ['x', (3, G, (1, 5, 40))], parsers=TWO))
    J.append(tjob('line', [('<b>*a* c', (1, 9, 60)), (1, W)], parsers=TWO))
    J.append(djob([['# ', (1, ('a', 'B', '-', '_', '.', '\xe9', '\u0130', '*'), (1, 40, 300)), ' ', (1, W)]], 'docs', parsers=TWO))
    # after other calls
    J.append(djob([['# a <', (1, 'bX/!'), '> --', (1, '*_. -'), 'c_'], '# <!a> <title>b', '# <b\t>c'], 'after', parser=['github', 'gitlab', 'cmark']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('heading texts of at most 2 (thorough 3) characters over ASCII and the Unicode representatives for all five parsers, '
          '4 (5) over letters blank hyphen underscore asterisk full stop, 5 (7) for runs of hyphens, templates with symbolic holes '
          'for tags, CDATA, comments, code spans and emphasis; two calls with another one in between; '
          'runs of one to three symbolic characters repeated up to 300 times; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = ('longer texts; the inputs C06 and C07 leave out (declarations, `??>`, `]]]>`, NUL, tab, VT and FF near tags)')
ASSUMPTIONS = ['props/ref.py:ref_slug, ref_html and ref_emph state the slug rule']
