from md_toc import api
from props.common import build, build_lines, djob, job, tjob, doc, toc_of, expect_toc, SOME, MANY, doc_after
from props.ref import ref_slug, CMARK_LIKE

MSG = 'repeated headings are numbered by their own earlier occurrences'
TWO = ['github', 'gitlab']


def docs(ctx, tpl, parsers, keep=6, **opts):
    doc(ctx, tpl, MSG, parser=list(parsers), keep=keep, no_coherence=True, no_indentation=True, **opts)


def history(ctx, texts, k, before, parsers):
    """k headings out of `texts` after `before` copies of the first one"""
    parser = ctx.pick('parser', parsers)
    counter = {}
    seen = []
    for i in range(before + k):
        t = texts[0] if i < before else ctx.pick('t%d' % i, texts)
        r = ctx.call(api.build_anchor_link, t, counter, parser)
        ctx.check(r.ok, 'anchor building returns')
        a = ref_slug(t, parser)
        n = len([x for x in seen if x == a])
        seen.append(a)
        ctx.check(ctx.same(r.value, a if n == 0 else a + '-' + str(n)), MSG)


def symbolic(ctx, k, n, alphabet, parsers):
    """k symbolic texts of at most n characters"""
    parser = ctx.pick('parser', parsers)
    counter = {}
    seen = []
    for i in range(k):
        t = ctx.strpick('t%d' % i, 1, n, alphabet)
        r = ctx.call(api.build_anchor_link, t, counter, parser)
        ctx.check(r.ok, 'anchor building returns')
        a = ref_slug(t, parser)
        m = 0
        for x in seen:
            if len(x) == len(a) and x == a:
                m += 1
        seen.append(a)
        ctx.check(ctx.same(r.value, a if m == 0 else a + '-' + str(m)), MSG)


def two_documents(ctx, parsers):
    """another document does not count"""
    parser = ctx.pick('parser', parsers)
    a = ctx.str('a', 1, 'xyX')
    b = ctx.str('b', 1, 'xyX')
    opts = dict(parser=parser, keep=6)
    la = ['# ' + a, '# ' + b, '# ' + a]
    lb = ['# ' + b, '# ' + a]
    r = toc_of(ctx, la, opts)
    expect_toc(ctx, r, la, opts, 'first document')
    r = toc_of(ctx, lb, opts)
    expect_toc(ctx, r, lb, opts, 'second document')
    r = toc_of(ctx, la, opts)
    expect_toc(ctx, r, la, opts, 'first document again')


# pairs of texts that collide under weak checksums (adler32, crc32, truncated
# MD5, SHA-1 and SHA-256), anagrams, and texts with a long common part
WEAK = [['h120', 'h201'], ['h29685295', 'h32060020'], ['h9798', 'h103363'], ['h125688', 'h130040'], ['h19602', 'h81472'],
        ['h64735', 'h147307'], ['h1620985', 'h1705253'], ['abc', 'bca'], ['x' * 70 + 'y', 'x' * 70 + 'z'],
        ['y' + 'x' * 70, 'z' + 'x' * 70], ['\u0430', 'a'], ['\uff11', '1']]


def weak(ctx, parsers):
    pair = ctx.pick('pair', WEAK)
    parser = ctx.pick('parser', parsers)
    lines = ['# ' + ctx.pick('t%d' % i, pair) for i in range(3)]
    opts = dict(parser=parser, keep=6)
    r = toc_of(ctx, lines, opts)
    expect_toc(ctx, r, lines, opts, MSG)


def many(ctx, n, parser):
    """one symbolic heading after n different ones"""
    counter = {}
    for i in range(n):
        r = ctx.call(api.build_anchor_link, 'f%d' % i, counter, parser)
        ctx.check(ctx.same(r.value, 'f%d' % i), MSG)
    t = ctx.pick('t', ['f0', 'f%d' % (n // 2), 'f%d' % (n - 1), 'f%d' % n, 'fa'])
    r = ctx.call(api.build_anchor_link, t, counter, parser)
    new = t in ('fa', 'f%d' % n)
    ctx.check(ctx.same(r.value, t if new else t + '-1'), MSG)


def longtexts(ctx, parts, parsers):
    """the same long text twice, with another one between"""
    parser = ctx.pick('parser', parsers)
    t = build(ctx, parts)
    u = t[:-1] + 'c'
    counter = {}
    for x, n in ((t, 0), (u, 0), (t, 1), (u, 1)):
        a = ref_slug(x, parser)
        r = ctx.call(api.build_anchor_link, x, counter, parser)
        ctx.check(r.ok, 'anchor building returns')
        ctx.check(ctx.same(r.value, a if n == 0 else a + '-' + str(n)), MSG)


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, MSG, **dict(dict(keep=6, no_coherence=True, no_indentation=True), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    A = ('a', 'A', '.', '-', '1')
    J = [job('history', texts=['a', 'a-1', 'A!', 'b', 'a 1'], k=4 if T else 3, before=0, parsers=CMARK_LIKE),
         job('history', texts=['a', 'a-1'], k=7 if T else 6, before=0, parsers=TWO),
         job('history', texts=['x', 'x-9', 'x-10', 'X '], k=2, before=9, parsers=TWO),
         job('history', texts=['x', 'x-1', 'y'], k=2, before=12, parsers=CMARK_LIKE),
         job('history', texts=['x', 'y', 'x-99'], k=2, before=99, parsers=['github']),
         job('symbolic', k=2, n=2, alphabet=A, parsers=CMARK_LIKE),
         job('symbolic', k=3, n=1, alphabet=('a', 'A', 'b', '.', '\xe9', '\xc9', '_', ' '), parsers=TWO),
         job('symbolic', k=2, n=1, alphabet=('a', '\xe9', '\xdf', '\u03b1', '\u03b2', '\u4e2d', '\u6587', '\U00020000'), parsers=TWO),
         job('weak', parsers=TWO),
         job('many', n=4000 if T else 1200, parser='github'),
         job('two_documents', parsers=CMARK_LIKE)]
    if T:
        J.append(job('symbolic', k=4, n=1, alphabet=('a', 'A', 'b', '.'), parsers=TWO))
        J.append(job('symbolic', k=3, n=2, alphabet=('a', 'A', '-', '1'), parsers=TWO))
    # in documents: hidden headings count, other lines do not
    L = ('#', ' ')
    J.append(djob([['# x'], ['#', (2, L), ' x'], ['#', (1, L), ' x'], ['# x']], 'docs', parsers=TWO, keep=2))
    J.append(djob([['## ', (1, 'ab')], ['# ', (1, 'ab')], ['### ', (1, 'ab')], ['# ', (1, 'ab')]], 'docs', parsers=CMARK_LIKE, keep=1))
    J.append(djob(['# x', 'x', '#x', '```', '# x', '```', '    # x', ['# ', (1, 'xX*')]], 'docs', parsers=CMARK_LIKE))
    J.append(djob([['# ', (1, 'xy')], '# x #', ['# *', (1, 'xy'), '*'], ['# ', (1, 'xy'), '!'], '# x-1'], 'docs', parsers=TWO))
    J.append(djob(['# x'] * 11 + [['# ', (1, 'xyX'), (1, ' -!')]], 'docs', parsers=TWO))
    J.append(djob(['# a', ['# ', (1, 'aA'), '[', (1, 'ab'), ']'], '# a[b]', '# ab'], 'docs', parsers=TWO))
    J.append(djob(['# a', ['# ', (2, 'a ')], ['# ', (1, 'ab')]], 'docs', parsers=TWO, no_links=True, newline=['\n', '\r\n']))
    # long texts and long histories
    J.append(tjob('longtexts', [(1, ('a', 'A', '.', ' ', '-'), MANY), (1, 'ab')], parsers=TWO))
    J.append(job('history', texts=['x', 'x-1000', 'y'], k=2, before=1000, parsers=['github']))
    # after other calls
    J.append(djob(['# a', '# b', ['# ', (1, 'abA')], ['#', (1, '# '), ' a'], '# a-1'], 'after', parser=TWO))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('all histories of 3 (thorough 4) headings out of 5 interacting texts and of 6 (7) out of 2, preceded by 0, 9, 12 and 99 copies; '
          'all pairs of texts of at most 2 characters over 5 characters, all triples of single characters over 8; documents with hidden '
          'headings, fences and non-heading lines; consecutive documents; texts that collide under weak or truncated checksums; '
          '1200 (4000) different headings before one; '
          'texts of up to 300 characters, 1000 earlier copies; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = ('longer histories of distinct texts; collisions of SHA-1 digests, which are modelled as injective')
ASSUMPTIONS = ['digests are injective on the symbolic inputs']
