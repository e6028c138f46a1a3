from md_toc import api
from props.common import job, djob, doc, levels_doc, pick_opts, toc_of, expect_toc, doc_after
from props.ref import CMARK_LIKE, PARSERS

MSG = 'one line per visible heading, indented like the hierarchy'


def seq(ctx, pre, k, top, **opts):
    opts = pick_opts(ctx, opts)
    lines, lv = levels_doc(ctx, pre, k, top)
    r = toc_of(ctx, lines, opts)
    expect_toc(ctx, r, lines, opts, MSG)


def width(ctx, parsers, marker):
    """the indentation below an entry whose number is any integer"""
    parser = ctx.pick('parser', parsers)
    n = ctx.int('n', 1, 999999999)
    m = ctx.int('m', 1, 999999999)
    log = api.init_indentation_log(parser, marker)
    r = ctx.call(api.compute_toc_line_indentation_spaces, 1, 0, parser, True, marker, log, n)
    ctx.check(r.ok, 'returns')
    r = ctx.call(api.compute_toc_line_indentation_spaces, 2, 1, parser, True, marker, log, m)
    ctx.check(r.ok, 'returns')
    ctx.check(log[2]['indentation_spaces'] == len(str(n)) + 2, 'the digits of the number above count')
    r = ctx.call(api.compute_toc_line_indentation_spaces, 3, 2, parser, True, marker, log, 1)
    ctx.check(r.ok, 'returns')
    ctx.check(log[3]['indentation_spaces'] == len(str(n)) + len(str(m)) + 4, 'at every level')
    r = ctx.call(api.compute_toc_line_indentation_spaces, 2, 3, parser, True, marker, log, m)
    ctx.check(r.ok, 'returns')
    ctx.check(log[2]['indentation_spaces'] == len(str(n)) + 2, 'going back restores the indentation')


def docs(ctx, tpl, **opts):
    doc(ctx, tpl, MSG, **opts)


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, MSG, **dict(dict(), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    base = dict(no_links=True, keep=6)
    for p in CMARK_LIKE:
        J.append(job('seq', pre=[], k=4 if T else 3, top=6, parser=p, ordered=[False, True], no_coherence=True, **base))
        J.append(job('seq', pre=[1], k=5 if T else 4, top=3, parser=p, ordered=[False, True], no_coherence=[False, True], **base))
    J.append(job('seq', pre=[], k=5 if T else 4, top=6, parser='github', ordered=False, no_coherence=True, **base))
    J.append(job('seq', pre=[1, 2], k=6 if T else 5, top=3, parser='cmark', ordered=True, no_coherence=False, **base))
    J.append(job('seq', pre=[], k=3, top=6, parser='redcarpet', ordered=[False, True], no_coherence=[False, True], **base))
    J.append(job('seq', pre=[], k=3, top=6, parser=PARSERS, no_indentation=True, ordered=[False, True], **base))
    # two digit numbers at one or two levels
    J.append(job('seq', pre=[1] * 8, k=4, top=2, parser=CMARK_LIKE, ordered=True, marker=['.', ')'], **base))
    J.append(job('seq', pre=[1] * 10 + [2] * 8, k=4 if T else 3, top=3, parser=['github', 'gitlab'], ordered=True, **base))
    J.append(job('seq', pre=[1] * 10 + [2] * 10, k=3, top=4, parser='cmark', constant=True, **base))
    J.append(job('seq', pre=[1] * 98, k=4, top=2, parser='cmark', ordered=True, **base))
    J.append(job('seq', pre=[3, 4], k=3, top=6, parser=PARSERS if T else ['commonmarker', 'gitlab', 'redcarpet'], ordered=[False, True], keep=[4, 5, 6] if T else [5], no_links=True))
    for m in ('.', ')'):
        J.append(job('width', parsers=CMARK_LIKE if T else ['github', 'goldmark'], marker=m))
    # lines that are not listed play no part
    J.append(djob([['#', (1, '# '), ' a'], 'text', ['#', (2, '# '), ' b'], '####### c', ['#', (2, '# '), ' d'], '```', '# e', '```',
                   ['#', (1, '# '), ' f']], ordered=[False, True], no_coherence=True, keep=2, parser=['github', 'cmark']))
    # one digit numbers again after a branch with two digits
    J.append(job('seq', pre=[1] + [2] * 10 + [3, 1], k=3, top=3, parser=CMARK_LIKE if T else ['github', 'gitlab'], ordered=True, **base))
    J.append(job('seq', pre=[1, 2] + [3] * 11 + [4, 2], k=3, top=4, parser=['cmark', 'goldmark'], ordered=True, no_coherence=[False, True], **base))
    # long documents
    J.append(job('seq', pre=[1, 2, 3, 4, 5, 6] * 4, k=2, top=6, parser=['github', 'gitlab'], ordered=False, no_coherence=True, marker=['+', '*'], **base))
    J.append(job('seq', pre=[1, 2, 3, 4, 5, 6] * 4, k=2, top=6, parser=['github', 'gitlab'], ordered=True, no_coherence=True, **base))
    J.append(job('seq', pre=[1, 2] * 30 + [3] * 12, k=3, top=4, parser=['cmark', 'redcarpet'], ordered=[False, True], **base))
    J.append(job('seq', pre=[1] + [2] * 101, k=3, top=4, parser='goldmark', ordered=True, **base))
    J.append(job('seq', pre=[1] * 130, k=1, top=2, parser='github', ordered=True, **base))
    J.append(job('seq', pre=[1] * 12 + [2] * 12 + [3] * 12 + [4] * 12 + [5] * 12, k=2, top=6, parser='commonmarker', ordered=True, **base))
    # after other calls
    J.append(djob(['# a', ['#', (2, '# '), ' b'], ['#', (1, '# '), ' c'], '## d'], 'after', parser=['github', 'cmark', 'redcarpet'], ordered=[False, True],
                  no_coherence=[True, False], keep=6))
    J.append(djob(['#### a', '##### b', '### c', ['#', (2, '# '), ' d']], 'after', parser=['github'], no_coherence=True, keep=6))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('all sequences of 3 (thorough 4) headings of levels 1 to 6 and of 5 (6) headings of levels 1 to 3 starting at 1, ordered and not, '
          'coherence checked or not; longer sequences with 8 to 98 concrete siblings before 3 or 4 symbolic ones; in the step function any '
          'two numbers from 1 to 999999999; '
          'up to 130 concrete headings before the symbolic ones; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = ('longer symbolic sequences; the indentation after going back to a level that did not occur in the current branch (only possible '
           'with the coherence check off), which the property leaves open')
ASSUMPTIONS = ['props/ref.py:ref_indents states the indentation rule']
