from md_toc import api
from props import alpha
from props.common import build, tjob, job, SOME, MANY
from props.ref import ref_html, ref_slug, DISALLOWED, CMARK_LIKE, SPACE_ONLY

MSG = 'exactly the inline HTML is removed'
TWO = ['github', 'cmark']
# NUL is outside the claim, and vertical tab and form feed next to attribute values
HTML = alpha.without(alpha.LINE, '\x00')
TAG = ('<', '>', '/', 'a', ' ', '=', '"', "'")


def outside(ctx, s, parser):
    if '=' in s:
        ctx.assume(ctx.neg('\v' in s))
        ctx.assume(ctx.neg('\f' in s))
        if parser in SPACE_ONLY:
            ctx.assume(ctx.neg('\t' in s))


def line(ctx, parts, parsers):
    parser = ctx.pick('parser', parsers)
    s = build(ctx, [HTML_PART(p) for p in parts])
    outside(ctx, s, parser)
    r = ctx.call(api.remove_html_tags, s, parser)
    ctx.check(r.ok, 'HTML removal returns')
    ctx.check(ctx.same(r.value, ref_html(s, parser)), MSG)
    if not ('<' in s and '>' in s):
        ctx.check(ctx.same(r.value, s), 'without an angle bracket pair nothing changes')


def HTML_PART(p):
    return (p[0], HTML) if not isinstance(p, str) and p[1] == 'HTML' else p


def cased(ctx, i):
    """DISALLOWED[i] with a free choice of case for two letters"""
    d = DISALLOWED[i]
    return ctx.char('c0', d[0] + d[0].upper()) + d[1:-1] + ctx.char('c1', d[-1] + d[-1].upper())


def disallowed(ctx, which, closing, parsers, n):
    """tags of the GFM filter, and names that merely start like one"""
    parser = ctx.pick('parser', parsers)
    name = cased(ctx, which)
    tail = ctx.str('t', n, ('a', 'Z', '0', ' ', '>', '/'))
    s = 'x<' + ('/' if closing else '') + name + tail + '>y<b>'
    r = ctx.call(api.remove_html_tags, s, parser)
    ctx.check(r.ok, 'HTML removal returns')
    ctx.check(ctx.same(r.value, ref_html(s, parser)), MSG)


def after(ctx, parts, parsers):
    """the same and another line first, with another parser"""
    s = build(ctx, parts)
    p = ctx.pick('first', CMARK_LIKE)
    ctx.call(api.remove_html_tags, s, p)
    ctx.call(api.remove_html_tags, '<!-- a -->' + s, p)
    parser = ctx.pick('parser', parsers)
    outside(ctx, s, parser)
    r = ctx.call(api.remove_html_tags, s, parser)
    ctx.check(r.ok, 'HTML removal returns')
    ctx.check(ctx.same(r.value, ref_html(s, parser)), MSG + ', whatever was called before')
    ctx.call(api.build_anchor_link, s, {}, p)
    a = ctx.call(api.build_anchor_link, s, {}, parser)
    ctx.check(a.ok, 'anchor building returns')
    ctx.check(ctx.same(a.value, ref_slug(s, parser)), 'the anchor lacks exactly the inline HTML, whatever was called before')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(0, 5 if T else 4):
        J.append(tjob('line', [(n, 'HTML')], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<', (3 if T else 2, 'HTML'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<a', (3 if T else 2, 'HTML'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<a ', (2, 'HTML'), '=b>'], parsers=TWO))
    J.append(tjob('line', ['<a b=', (2, 'HTML'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<a b=', (1, '"\''), (2, 'HTML'), '>"\'>'], parsers=TWO))
    J.append(tjob('line', ['</', (2, 'HTML'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['</b', (3, (' ', '\t', '\v', '\f', 'a', '>', '/'))], parsers=CMARK_LIKE))
    J.append(tjob('line', [(6 if T else 5, TAG)], parsers=TWO))
    J.append(tjob('line', ['<', (6 if T else 5, TAG), '>'], parsers=TWO if T else ['cmark']))
    J.append(tjob('line', ['<a b', (5 if T else 4, TAG), '>'], parsers=TWO))
    J.append(tjob('line', ['<a', (2, (' ', '\t', '\v', '\f')), 'b', (1, ' \t\v\f'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<!A', (2, (' ', '\t', '\v', '\f', 'b')), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<a_', (1, 'HTML'), '><a-', (1, 'HTML'), '>'], parsers=TWO))
    J.append(tjob('line', ['<a b c', (2, (' ', '=', '/', '"', ':', '.')), '"d"', (1, ' />'), '>'], parsers=CMARK_LIKE))
    # comments
    J.append(tjob('line', ['<!--', (4 if T else 3, ('-', '>', 'a', '<', '!')), '-->'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<!-', (3, ('-', '>', 'a', ' ')), '-->b-->'], parsers=TWO))
    J.append(tjob('line', ['a<!-- ', (1, 'HTML'), '--', (1, 'HTML'), ' -->'], parsers=CMARK_LIKE))
    # processing instructions, declarations, CDATA
    J.append(tjob('line', ['<?', (3, ('?', '>', 'a', '<')), '?>', (1, '?>')], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<?', (1, 'HTML'), '?', (1, 'HTML'), '>'], parsers=TWO))
    J.append(tjob('line', ['<!', (2, 'HTML'), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<!', (4 if T else 3, ('A', 'b', ' ', '>', '<', '-', '[')), 'c>'], parsers=TWO))
    J.append(tjob('line', ['<![CDATA[', (4 if T else 3, (']', '>', 'a', '<')), ']]>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<![', (1, 'Cc'), 'DATA', (1, '[a'), (1, 'HTML'), ']]>'], parsers=TWO))
    # removal must not form new elements
    J.append(tjob('line', ['<', (1, ('a', '<', '!', '/')), '<', (1, ('b', '/', '?')), '>', (2, ('>', 'a', '/')), '>'], parsers=CMARK_LIKE))
    J.append(tjob('line', ['<<b', (1, '> '), (1, 'a<'), '<!--', (1, '-a'), '-->', '>'], parsers=TWO))
    for i in range(len(DISALLOWED)):
        J.append(job('disallowed', which=i, closing=False, parsers=['github', 'commonmarker'] if i % 2 else ['github', 'gitlab'],
                     n=2 if T else 1))
        J.append(job('disallowed', which=i, closing=True, parsers=['github', 'cmark'] if i % 2 else ['commonmarker', 'goldmark'],
                     n=2 if T else 1))
    # long and many elements
    A = ('<', '>', '/', 'a', ' ', '=', '"')
    J.append(tjob('line', [('<a>x</a>', (1, 9, 60)), '<', (2, A), '>'], parsers=TWO))
    J.append(tjob('line', ['<', (1, 'HTML', MANY), (1, 'HTML'), '>'], parsers=TWO))
    J.append(tjob('line', ['<a', (2, A, SOME), '>'], parsers=TWO))
    J.append(tjob('line', ['<a', (' b="c"', SOME), (2, A), '>'], parsers=TWO))
    J.append(tjob('line', ['<a b=', (1, '"\''), (1, A, MANY), (1, A), '"\'>'], parsers=TWO))
    J.append(tjob('line', ['<!--', (1, ('-', '>', 'a', '<', '!', ' '), MANY), (1, ('-', '>', 'a', ' ')), '-->'], parsers=TWO))
    J.append(tjob('line', ['<?', (1, ('?', '>', 'a', '<', '!', ' '), MANY), (1, ('?', '>', 'a', ' ')), '?>'], parsers=TWO))
    J.append(tjob('line', ['<![CDATA[', (1, (']', '>', 'a', '<', '['), MANY), (1, (']', '>', 'a')), ']]>'], parsers=TWO))
    J.append(tjob('line', ['<!A ', (1, 'HTML', MANY), '>'], parsers=TWO))
    J.append(tjob('line', ['</', (1, ('a', ' ', '>', '/', '1'), MANY), (1, A), '>'], parsers=TWO))
    # after other calls
    J.append(tjob('after', ['<', (1, 'aA/!?'), (1, 'bB '), (1, ' >\t'), '>x'], parsers=['github', 'cmark', 'gitlab']))
    J.append(tjob('after', ['<!', (1, 'aA-'), (1, ' b'), '>', '<title', (1, ' >a'), '>'], parsers=['github', 'cmark', 'gitlab']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('lines of at most 3 (thorough 4) characters over ASCII and the Unicode representatives for all five parsers, 5 (6) over the '
          'characters of tags, templates with 2 to 5 symbolic characters inside open tags, attributes, closing tags, comments, processing '
          'instructions, declarations and CDATA sections, all nine GFM filtered names in both cases; '
          'elements of up to 300 characters and up to 121 of them; '
          'lines with a tag after the same line with another parser')
OUTSIDE = ('longer lines; NUL; vertical tabs and form feeds in lines with `=`; tabs inside github tags with attributes values; a hyphen right after a filtered '
           'GFM name, where the GFM text does not say whether the filter applies')
ASSUMPTIONS = ['props/ref.py:html_at states the raw HTML rules of CommonMark 0.30 and GFM 0.29']
