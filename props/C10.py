from md_toc import api
from props.common import job, levels_doc, pick_opts, toc_of, expect_toc, doc_after, djob
from props.ref import CMARK_LIKE, PARSERS

MSG = 'entries are numbered from 1 in each sibling group'
LIMIT = 999999999


def seq(ctx, pre, k, top, **opts):
    opts = pick_opts(ctx, opts)
    lines, lv = levels_doc(ctx, pre, k, top)
    r = toc_of(ctx, lines, opts)
    expect_toc(ctx, r, lines, opts, MSG)


def step(ctx, parsers, used):
    """one step from any counters: `used` levels were used before"""
    parser = ctx.pick('parser', parsers)
    count = {}
    for lv in used:
        count['h%d' % lv] = ctx.int('n%d' % lv, 1, LIMIT + 5 if parser == 'redcarpet' else LIMIT)
    before = dict(count)
    prev = ctx.pick('prev', [0] if not used else used)
    cur = ctx.pick('cur', range(1, 7))
    r = ctx.call(api.increase_index_ordered_list, count, prev, cur, parser)
    key = 'h%d' % cur
    if prev and cur > prev or key not in before:
        want = 1
    else:
        want = before[key] + 1
    if parser != 'redcarpet' and want > LIMIT:
        ctx.check(r.kind == 'exc' and r.value == 'GithubOverflowOrderedListMarker', 'the number after the limit is refused')
    else:
        ctx.check(r.ok, 'numbers up to the limit are accepted')
        ctx.check(count[key] == want, 'deeper restarts at 1, otherwise the last number plus one')


def twosteps(ctx, parsers, n):
    """n steps from empty counters, levels symbolic"""
    parser = ctx.pick('parser', parsers)
    count = {}
    last = {}
    prev = 0
    for i in range(n):
        cur = ctx.pick('level%d' % i, range(1, 7))
        r = ctx.call(api.increase_index_ordered_list, count, prev, cur, parser)
        ctx.check(r.ok, 'accepted')
        last[cur] = 1 if (prev and cur > prev) else last.get(cur, 0) + 1
        ctx.check(count['h%d' % cur] == last[cur], MSG)
        prev = cur


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, MSG, **dict(dict(ordered=True), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    base = dict(no_links=True, keep=6)
    for used in ([], [1], [2], [1, 2], [1, 2, 3], [3, 5, 6], [1, 2, 3, 4, 5, 6]):
        J.append(job('step', parsers=PARSERS, used=used))
    J.append(job('twosteps', parsers=['github', 'redcarpet'], n=5 if T else 4))
    for p in PARSERS:
        J.append(job('seq', pre=[], k=4 if T else 3, top=6, parser=p, ordered=True, no_coherence=True, no_indentation=True, **base))
        J.append(job('seq', pre=[1], k=5 if T else 4, top=3, parser=p, ordered=True, marker=['.', ')', '-', '*', 'x'], **base))
        J.append(job('seq', pre=[], k=3, top=3, parser=p, ordered=[False, True], constant=True, marker=['.', ')', '-', '+', '*'], **base))
        J.append(job('seq', pre=[1], k=2, top=6, parser=p, ordered=[False, True], constant=True, no_coherence=True, no_indentation=[False, True],
                     no_links=True, keep=[4, 5, 6]))
    J.append(job('seq', pre=[1, 2], k=6 if T else 5, top=3, parser='github', ordered=True, **base))
    J.append(job('seq', pre=[1, 2, 3, 3, 2, 3], k=4, top=3, parser='github', ordered=True, **base))
    J.append(job('seq', pre=[1, 2, 2, 2], k=4, top=3, parser=CMARK_LIKE, ordered=True, keep=[1, 2, 3], no_links=True))
    J.append(job('seq', pre=[2, 1], k=3, top=3, parser='gitlab', ordered=True, no_coherence=True, no_indentation=True, **base))
    J.append(job('seq', pre=[1] * 9, k=3, top=2, parser=CMARK_LIKE, ordered=True, **base))
    # long documents
    J.append(job('seq', pre=[1, 2, 3, 4, 5, 6] * 4, k=2, top=6, parser=['github', 'redcarpet'], ordered=True, no_coherence=True, **base))
    J.append(job('seq', pre=[1, 2] * 30 + [3] * 12, k=3, top=4, parser=['cmark', 'redcarpet'], ordered=True, marker=['.', ')'], **base))
    J.append(job('seq', pre=[1] + [2] * 101, k=3, top=3, parser='goldmark', ordered=True, **base))
    J.append(job('seq', pre=[1] * 130, k=1, top=2, parser='gitlab', ordered=[False, True], constant=[False, True], **base))
    # after other calls
    J.append(djob(['# a', '## b', ['#', (1, '# '), ' c'], ['#', (1, '# '), ' d']], 'after', parser=['github', 'redcarpet'], constant=[False, True]))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('one step of the counter from any numbers 1 to 999999999 (symbolic integers) at any of seven sets of used levels; all sequences of '
          '4 (thorough 5) levels 1 to 6 at the counter, of 3 (4) in documents, of 5 (6) levels 1 to 3; every parser and marker; '
          'up to 130 concrete headings before the symbolic ones; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer sequences from the empty state (the one-step check from any numbers covers their last step)'
ASSUMPTIONS = ['the counter is the dictionary documented as HeaderTypeCounter: level name to last number']
