from md_toc import api
from props.common import build, tjob, djob, doc, job, rep, SOME, MANY, HUGE, doc_after
from props.ref import ref_redcarpet, ref_redcarpet_anchor, ref_anchor


def line(ctx, parts):
    s = build(ctx, parts)
    no_links = ctx.flag('no_links')
    r = ctx.call(api.get_atx_heading, s, 6, 'redcarpet', no_links)
    ctx.check(r.ok, 'heading parsing returns')
    ctx.check(len(r.value) == 1, 'one line gives one element')
    e = r.value[0]
    ref = ref_redcarpet(s, no_links)
    if ref is None:
        ctx.check(e['header_type'] is None and e['header_text_trimmed'] is None, 'not a heading')
    else:
        ctx.check(e['header_type'] == ref[0], 'level')
        ctx.check(e['header_text_trimmed'] is not None, 'is a heading')
        ctx.check(ctx.same(e['header_text_trimmed'], ref[1]), 'text')


def anchor(ctx, parts, again=False, kept=False):
    s = build(ctx, parts)
    if kept:
        # hashed texts have their own jobs
        ctx.assume(ref_redcarpet_anchor(s) is not None)
    d = {}
    r = ctx.call(api.build_anchor_link, s, d, 'redcarpet')
    ctx.check(r.ok, 'anchor building returns')
    ctx.check(ctx.same(r.value, ref_anchor(s, 'redcarpet')), 'the anchor follows Redcarpet')
    if again:
        q = ctx.call(api.build_anchor_link, s, d, 'redcarpet')
        ctx.check(ctx.same(r, q), 'Redcarpet does not number duplicates')


def docs(ctx, tpl, **opts):
    doc(ctx, tpl, 'the TOC follows Redcarpet', parser='redcarpet', keep=6, **opts)


H = ('#', ' ', '\t', 'a', '\\')
S = ('a', '-', '<', '>', '&', ';')
P = ('a', '.', '\xe9', ' ')


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'the TOC follows Redcarpet', **dict(dict(parser='redcarpet', keep=6), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(1, 6 if T else 5):
        J.append(tjob('line', [(n, 'LINE')]))
    for n in range(5, 9 if T else 8):
        J.append(tjob('line', [(n, H)]))
    J.append(tjob('line', ['#####', (4, H)]))
    J.append(tjob('line', ['# a', (4, H)]))
    J.append(tjob('line', ['# ', (2, 'LINE'), '#', (1, 'LINE')]))
    J.append(tjob('anchor', [(1, 'LINE')]))
    for n in range(2, 6 if T else 4):
        J.append(tjob('anchor', [(n, 'LINE')], kept=True))
    J.append(tjob('anchor', [(5 if T else 4, S)], again=True))
    J.append(tjob('anchor', [(6 if T else 5, P)]))
    J.append(tjob('anchor', ['A', (1, 'LINE'), 'B', (1, 'LINE')]))
    J.append(tjob('anchor', ['a<', (3, S), 'b']))
    J.append(tjob('anchor', ['a&', (4 if T else 3, ('b', ' ', ';', '&', '<')), 'c']))
    J.append(tjob('anchor', ['a<', (4 if T else 3, ('b', ' ', '>', '<', '"')), 'c']))
    J.append(tjob('anchor', [(1, '<&'), (2, ('b', ' ', '.')), (1, '>;'), 'c', (1, ' .;>')]))
    J.append(tjob('anchor', ['.', (3, ('.', '\xe9', '\u4e2d', '\U0001f600', '\\', '!'))]))
    J.append(tjob('anchor', ['.' * 14, (1, ('!', '\xff', '~')), '\u4e2d' * 2]))
    J.append(djob([['# ', (1, 'LINE'), 'a', (1, 'LINE')]]))
    J.append(djob([[(4, H)], '# x', '```', '# x', '```']))
    J.append(djob(['# x', ['# ', (1, 'xX'), (1, '. #')], '# x'], ordered=True, marker=['.', ')', '-']))
    # long lines and texts
    J.append(tjob('line', [(1, 'LINE', MANY), '#', (1, 'LINE', MANY)]))
    J.append(tjob('line', ['#', (1, H, SOME), 'a', (1, H, SOME), (1, H, SOME)]))
    J.append(tjob('line', ['# ', (1, 'LINE', HUGE), (1, H), (1, H, MANY)]))
    J.append(tjob('anchor', ['a', (1, 'LINE', MANY), (1, P, MANY), 'b']))
    J.append(tjob('anchor', ['a', (2, S, SOME), 'b', (2, P, SOME)]))
    J.append(tjob('anchor', [(1, ('.', '\xe9', '!', '\u4e2d'), (9, 40, 300)), (1, ('!', '\xff', '~', '.'))]))
    J.append(djob([rep('# x', (1, 12)), ['# ', (1, P, MANY), 'y']]))
    # after other calls
    J.append(djob([['#', (2, '# a'), ' x'], '# a', '# a &b; <c> .', ['#', (1, ' \t'), '[', (1, 'a]')]], 'after', ordered=[False, True]))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('lines of at most 4 (thorough 5) characters over ASCII and the Unicode representatives, 7 (8) over # blank tab letter backslash; '
          'anchor texts of at most 3 (5) characters over the whole alphabet (hashed ones: 1), 4 (5) over tags and entities, 5 (6) over separators, tags and entities '
          'between symbolic characters, and hashed texts up to 17 characters; '
          'lines and texts made of runs of up to 1100 copies of a symbolic character; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer lines and texts'
ASSUMPTIONS = ['props/ref.py:ref_redcarpet, ref_redcarpet_anchor and djb2 state the rules of Redcarpet (rndr_header_anchor, parse_atxheader)']
