from md_toc import api
from props.common import build, build_lines, job, djob, tjob, doc, levels_doc, pick_opts, toc_of, expect_toc, rep, doc_after
from props.ref import PARSERS, CMARK_LIKE, ref_heading


def seq(ctx, pre, k, top, **opts):
    """exactly the headings up to the limit"""
    opts = pick_opts(ctx, opts)
    lines, lv = levels_doc(ctx, pre, k, top, ('x', 'y'))
    r = toc_of(ctx, lines, opts)
    expect_toc(ctx, r, lines, opts, 'exactly the headings up to the limit are listed')


def raising(ctx, tpl, parsers):
    """a higher limit only adds entries"""
    parser = ctx.pick('parser', parsers)
    lo = ctx.pick('lo', range(1, 6))
    hi = ctx.pick('hi', range(lo + 1, 7))
    lines = build_lines(ctx, tpl)
    o = dict(parser=parser, no_indentation=True)
    a = toc_of(ctx, lines, dict(o, keep=lo))
    b = toc_of(ctx, lines, dict(o, keep=hi))
    ctx.check(a.kind == b.kind, 'the limit does not decide about errors')
    if a.ok:
        rest = b.value.split('\n')
        i = 0
        for x in a.value.split('\n'):
            while i < len(rest) and not (len(rest[i]) == len(x) and rest[i] == x):
                i += 1
            ctx.check(i < len(rest), 'every entry survives unchanged')
            i += 1


def docs(ctx, tpl, **opts):
    doc(ctx, tpl, 'exactly the headings up to the limit are listed', **opts)


def low(ctx, parts, parsers):
    parser = ctx.pick('parser', parsers)
    n = ctx.int('n', -1000, 0)
    s = build(ctx, parts)
    r = ctx.call(api.get_atx_heading, s, n, parser, ctx.flag('no_links'))
    ctx.check(r.kind == 'exc' and r.value == 'ValueError', 'a limit below 1 is rejected')


def lowdoc(ctx, parsers):
    parser = ctx.pick('parser', parsers)
    n = ctx.int('n', -1000, 0)
    ctx.write('d.md', '# ' + ctx.str('s', 1, 'ab') + '\n')
    r = ctx.call(api.build_toc, ctx.path('d.md'), keep_header_levels=n, parser=parser)
    ctx.check(r.kind == 'exc' and r.value == 'ValueError', 'a limit below 1 is rejected')


def visible(ctx, parts, parsers):
    """the limit is any integer"""
    parser = ctx.pick('parser', parsers)
    n = ctx.int('n', 1, 1000)
    s = build(ctx, parts)
    h = ref_heading(s, parser, True)
    r = ctx.call(api.get_atx_heading, s, n, parser, True)
    ctx.check(r.ok, 'returns')
    e = r.value[0]
    if h[0] == 'none':
        ctx.check(not e['visible'], 'no heading is not visible')
    else:
        ctx.check(bool(e['visible']) == (h[1] <= n), 'visible exactly up to the limit')
        ctx.check(e['header_type'] == h[1], 'hidden headings keep their level')


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'exactly the headings up to the limit are listed', **dict(dict(), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for p in PARSERS:
        J.append(job('seq', pre=[], k=3, top=6, parser=p, keep=[1, 2, 3, 4, 5, 6, 7], no_indentation=True))
    J.append(job('seq', pre=[1], k=4 if T else 3, top=4, parser=PARSERS, keep=[1, 2, 3, 4], ordered=[False, True]))
    J.append(djob([['#', (2, '# '), ' x'], ['#', (2, '# '), ' x'], ['#', (2, '# '), ' x']], 'raising', parsers=PARSERS))
    J.append(djob([['#', (1, '# '), ' ', (1, 'aA[')], ['##', (1, '# '), ' ', (1, 'aA[')]], 'raising', parsers=PARSERS))
    J.append(djob([['#', (5, '# '), 'x']], parser=PARSERS, keep=[1, 2, 3, 4, 5, 6], no_links=[False, True]))
    J.append(tjob('visible', ['#', (6, '# '), 'x'], parsers=PARSERS))
    J.append(tjob('visible', [(4, ('#', ' ', 'a'))], parsers=PARSERS))
    J.append(tjob('visible', [(3, ' #'), (4, '# '), 'x'], parsers=PARSERS))
    J.append(tjob('visible', ['##', (1, '# \t'), (1, ' \ta'), (2, '# \t')], parsers=PARSERS))
    J.append(djob([[(3, ' '), '#', (2, '# '), ' ', (1, 'a\t#')], ['   ##', (1, '# '), ' x']], parser=PARSERS, keep=[1, 2, 3], no_links=True, no_coherence=True))
    J.append(tjob('low', ['#', (2, 'LINE')], parsers=PARSERS))
    J.append(job('lowdoc', parsers=PARSERS))
    J.append(job('seq', pre=[1, 2, 3, 4, 5, 6] * 6, k=2, top=6, parser=['github', 'redcarpet'], keep=[1, 2, 3, 4, 5, 6], no_indentation=True))
    J.append(djob([rep('#### x', (1, 30)), ['#', (3, '# '), ' x'], rep('## x', (1, 12)), ['#', (3, '# '), ' x']], parser=['cmark', 'redcarpet'], keep=[1, 3], no_coherence=True))
    # after other calls
    J.append(djob(['# a', ['#', (2, '# '), ' b'], '### c', '#### d', '##### e', '###### f'], 'after', parser=['github', 'redcarpet'], keep=[1, 2, 3, 5, 6],
                  no_indentation=[True]))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('all sequences of 3 levels 1 to 6 for every parser and limit 1 to 7; symbolic limits -1000 to 1000 at the heading parser; all pairs '
          'of limits on documents of two and three headings with symbolic levels and texts; '
          'documents of up to 44 headings; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer documents (each line is judged on its own, see C01)'
ASSUMPTIONS = []
