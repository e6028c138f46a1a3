from md_toc import api
from props.common import build, tjob, djob, doc, SOME, MANY, doc_after
from props.ref import ref_atx, ref_label, CMARK_LIKE


def line(ctx, parts, parsers, no_links=False):
    parser = ctx.pick('parser', parsers)
    s = build(ctx, parts)
    ref = ref_atx(s, parser)
    ctx.assume(ref is not None)
    r = ctx.call(api.get_atx_heading, s, 6, parser, no_links)
    if no_links:
        ctx.check(r.ok, 'without links nothing is rejected')
        ctx.check(ctx.same(r.value[0]['header_text_trimmed'], ref[1]), 'without links the text is verbatim')
        return
    kind, v = ref_label(ref[1])
    if kind == 'exc':
        ctx.check(r.kind == 'exc' and r.value == v, 'blank and overlong labels are rejected with their error')
        return
    ctx.check(r.ok, 'no other heading is rejected')
    label = r.value[0]['header_text_trimmed']
    ctx.check(ctx.same(label, v), 'the label is the text with its brackets escaped')


def docs(ctx, tpl, parsers, no_links=False):
    doc(ctx, tpl, 'the labels in the TOC are safe', parser=list(parsers), no_links=no_links, keep=6)


X = ('[', ']', '\\', 'a')
Y = ('[', '\\', ' ')
TWO = ['github', 'gitlab']


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'the labels in the TOC are safe', **dict(dict(keep=6), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(0, 5 if T else 4):
        J.append(tjob('line', ['# ', (n, 'LINE')], parsers=CMARK_LIKE))
        J.append(tjob('line', ['# ', (n, 'LINE')], parsers=CMARK_LIKE, no_links=True))
    for n in range(4, 9 if T else 7):
        J.append(tjob('line', ['# ', (n, X)], parsers=TWO if n < 8 else ['github']))
    J.append(tjob('line', ['# ', (5, Y)], parsers=CMARK_LIKE))
    J.append(tjob('line', ['#', (4, (' ', '\t', '\v', '\f', '\x1f', '\xa0', '#'))], parsers=CMARK_LIKE))
    J.append(tjob('line', ['###### a', (3, X), ' b', (3, X), ' #'], parsers=['cmark']))
    # around the limit of 999 characters
    for n in (995, 996, 997):
        J.append(tjob('line', ['# ', 'a' * n, (3, ('a', '\\', '[', ' '))], parsers=CMARK_LIKE))
    J.append(tjob('line', ['# ', (1, 'LINE'), 'a' * 997, (1, 'LINE')], parsers=['github']))
    J.append(tjob('line', ['# ', (1, 'LINE'), 'a' * 998, (1, 'LINE')], parsers=['cmark']))
    J.append(tjob('line', ['# ', 'a' * 998, (3, ('a', ' ', '#'))], parsers=['gitlab'], no_links=True))
    J.append(djob([['# ', (2, 'LINE')]], 'docs', parsers=CMARK_LIKE))
    J.append(djob([['# a'], ['# ', (3, X)], ['# a']], 'docs', parsers=TWO))
    J.append(djob([['# ', (2, X)], ['# ', (2, X)]], 'docs', parsers=['cmark']))
    J.append(djob([['# ', (3, ('[', '\\', ' ', 'a'))]], 'docs', parsers=TWO, no_links=True))
    # long runs of backslashes and brackets
    BS = (1, 2, 3, 4, 5, 8, 9, 16, 17, 40, 41)
    J.append(tjob('line', ['# a', (1, X, BS), (1, X), (1, X, SOME)], parsers=TWO))
    J.append(tjob('line', ['# ', (2, X, (1, 9, 40, 200)), (1, X)], parsers=TWO))
    J.append(tjob('line', ['# ', (1, 'LINE', (1, 9, 40, 998, 999, 1000)), (1, X)], parsers=TWO))
    J.append(djob([['# ', (1, X, (1, 40, 300)), 'b'], '# b'], 'docs', parsers=TWO))
    # after other calls
    J.append(djob([['# a', (2, X)], '# [b\\]'], 'after', parser=['github', 'cmark'], no_links=[False, True]))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('heading texts of at most 3 (thorough 4) characters over ASCII and the Unicode representatives for all five parsers, '
          '6 (8) over brackets backslash letter, 5 over bracket backslash blank, texts of 995 to 1001 characters with symbolic ends; '
          'documents of up to three headings; '
          'runs of up to 300 symbolic brackets, backslashes or pairs of them; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer texts with symbolic middles'
ASSUMPTIONS = ['props/ref.py:ref_label states the label rule']
