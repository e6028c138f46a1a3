from props.common import job, djob, doc, levels_doc, pick_opts, toc_of, expect_toc, doc_after
from props.ref import PARSERS, CMARK_LIKE, coherent

ERR = 'TocDoesNotRenderAsCoherentList'


def seq(ctx, pre, k, top, **opts):
    opts = pick_opts(ctx, opts)
    lines, lv = levels_doc(ctx, pre, k, top)
    r = toc_of(ctx, lines, opts)
    shown = [x for x in lv if x <= opts.get('keep', 3)]
    if opts.get('no_indentation') or opts.get('no_coherence') or coherent(shown):
        ctx.check(r.ok, 'coherent or unchecked sequences are accepted')
        ctx.check(r.value.count('\n') == len(shown), 'one line per visible heading')
    else:
        ctx.check(r.kind == 'exc' and r.value == ERR, 'incoherent sequences are refused')


def docs(ctx, tpl, **opts):
    doc(ctx, tpl, 'incoherent sequences are refused, others never', **opts)


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, 'incoherent sequences are refused, others never', **dict(dict(), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for p in PARSERS:
        J.append(job('seq', pre=[], k=4 if T else 3, top=6, parser=p, keep=6))
        J.append(job('seq', pre=[], k=3, top=6, parser=p, keep=[1, 2, 3, 4], no_links=True))
    J.append(job('seq', pre=[], k=5 if T else 4, top=6, parser='github', keep=6, no_links=True, ordered=[False, True]))
    J.append(job('seq', pre=[2, 3], k=4, top=4, parser='cmark', keep=[3, 6]))
    J.append(job('seq', pre=[], k=3, top=6, parser=PARSERS, keep=6, no_indentation=[False, True], no_coherence=[False, True]))
    J.append(job('seq', pre=[1, 2, 3, 2, 1], k=3, top=4, parser='gitlab', keep=6, constant=[False, True]))
    J.append(djob([['#', (2, '# '), ' a'], '```', ['#', (2, '# '), ' b'], '```', ['#', (2, '# '), ' c'], '~~~', '###### d'],
                  parser=CMARK_LIKE, keep=6))
    J.append(djob([['#', (1, '# '), ' a'], '#### b', ['#', (3, '# '), ' c'], 'text', ['#', (2, '# '), ' d']], parser=PARSERS, keep=[2, 3]))
    J.append(djob([[(1, ' a'), '## b'], ['#', (2, ('#', ' ', 'a')), ' c'], ['#', (2, ('#', ' ', 'a')), ' d']], parser=PARSERS, keep=6))
    # long documents
    J.append(job('seq', pre=[1, 2, 3] * 20, k=2, top=6, parser=['github', 'redcarpet'], keep=6))
    J.append(job('seq', pre=[2] * 100, k=2, top=4, parser=['cmark', 'gitlab'], keep=[3, 6], ordered=[False, True], no_links=True))
    J.append(job('seq', pre=[3, 4, 5, 6, 5, 4, 3] * 3, k=2, top=6, parser=PARSERS, keep=6, no_links=True))
    J.append(job('seq', pre=[2] + [6] * 20, k=3, top=4, parser=['github'], keep=[3], no_links=True))
    # after other calls
    J.append(djob([['#', (2, '# '), ' a'], ['#', (2, '# '), ' b'], ['#', (1, '# '), ' c']], 'after', parser=['github', 'redcarpet'], keep=6))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('all sequences of 3 (thorough 4) levels 1 to 6 for every parser, 4 (5) for github, longer ones with a concrete start; limits 1 to 6; '
          'every combination of the two switches; documents with fenced and hidden headings in between; '
          'up to 100 concrete headings before the symbolic ones; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer sequences (the rule looks at the first, the previous and the current visible heading only)'
ASSUMPTIONS = []
