from md_toc import api
from props.common import build, build_lines, job, djob, tjob, pick_opts, api_options, rep
from props.ref import PARSERS, ref_split, ref_existing, ref_inplace

TM = '<!--TOC-->'
NLS = ['\n', '\r\n', '\r']


def known(toc, opts):
    """what md_toc/generic.py:_detect_toc_list (fixed by the test-suite) does not recognise as a TOC"""
    first = toc.split('\n')[0].split('\r')[0]
    text = first.lstrip(' ')
    sp = text.find(' ')
    label = '' if sp < 0 else text[sp + 1:]
    return [
        ('C17-redcarpet-first-heading-deep', opts.get('parser') == 'redcarpet' and first.startswith('    ')),
        ('C17-no-links-first-entry-blank', bool(opts.get('no_links')) and (len(label.strip()) == 0 or label[0] in ('\t', '\v'))),
    ]


def again(ctx, text, opts, marker, nl, extra=None):
    """write twice"""
    ctx.write('doc.md', text)
    f = ctx.path('doc.md')
    k = dict(api_options(opts), newline_string=nl)
    if extra:
        k.update(extra)
    t = ctx.call(api.build_toc, f, **k)
    if not t.ok:
        return
    w = ctx.call(api.write_string_on_file_between_markers, f, t.value, marker, nl)
    ctx.check(w.ok, 'writing succeeds')
    kn = known(t.value, opts)
    one = ctx.read('doc.md')
    lines, _ = ref_split(text)
    marked = marker in [x.strip() for x in lines]
    if not marked:
        return
    u = ctx.call(api.build_toc, f, **k)
    ctx.check(ctx.same(u, t), 'the TOC of the written file is the same')
    e = ctx.call(api.tocs_equal, t.value, f, marker)
    ctx.check(e.ok, 'comparison succeeds')
    ctx.check(e.value is True, 'the comparison reports equal after writing', kn)
    v = ctx.call(api.write_string_on_file_between_markers, f, t.value, marker, nl)
    ctx.check(v.ok, 'writing again succeeds')
    ctx.check(v.value is True, 'writing again reports equal', kn)
    ctx.check(ctx.same(ctx.read('doc.md'), one), 'writing again changes nothing', kn)


def docs(ctx, tpl, ends=('\n',), nls=('\n',), marker=TM, skip=None, **opts):
    opts = pick_opts(ctx, opts)
    lines = build_lines(ctx, tpl)
    end = ctx.pick('end', ends)
    text = end.join(lines) + ctx.pick('last', [end, ''])
    again(ctx, text, opts, marker, ctx.pick('nl', nls), dict(skip_lines=skip) if skip else None)


def kinds(ctx, n, lines, marker=TM, **opts):
    opts = pick_opts(ctx, opts)
    out = [ctx.pick('l%d' % i, lines) for i in range(n)]
    again(ctx, '\n'.join(out) + '\n', opts, marker, ctx.pick('nl', ['\n', '\r\n']))


def flat(ctx, parts, marker='M', **opts):
    opts = pick_opts(ctx, opts)
    again(ctx, build(ctx, parts), opts, marker, ctx.pick('nl', ['\n', '\r\n']))


def verdict(ctx, parts, tocs, marker='M', nls=('\n',)):
    """equality verdict before writing"""
    text = build(ctx, parts, 'd')
    toc = ctx.pick('toc', tocs)
    if not isinstance(toc, str):
        toc = build(ctx, toc, 't')
    nl = ctx.pick('nl', nls)
    ctx.write('doc.md', text)
    lines, _ = ref_split(text)
    old = ref_existing(lines, marker)
    new = toc.replace('\r\n', '\n').replace('\r', '\n').strip()
    e = ctx.call(api.tocs_equal, toc, ctx.path('doc.md'), marker)
    ctx.check(e.ok, 'comparison succeeds')
    if old is None:
        # the lone marker counts as different from every TOC
        ctx.assume(ctx.neg(new == marker))
        want = False
    else:
        want = ctx.same(old, new)
    ctx.check(ctx.same(e.value, want), 'the comparison is right')
    w = ctx.call(api.write_string_on_file_between_markers, ctx.path('doc.md'), toc, marker, nl)
    ctx.check(w.ok, 'writing succeeds')
    ctx.check(ctx.same(w.value, want), 'the verdict of the writer is right')


def sequence(ctx, tocs, marker=TM):
    """comparisons and writes in any order"""
    f = ctx.path('doc.md')
    now = '- a'
    text = 'x\n' + marker + '\n\n- a\n\n' + marker + '\n'
    ctx.write('doc.md', text)
    for i in range(3):
        t = ctx.pick('t%d' % i, tocs)
        what = ctx.pick('w%d' % i, ['compare', 'write', 'replace'])
        if what == 'replace':
            ctx.write('doc.md', text.replace('- a', t))
            now = t
        elif what == 'write':
            r = ctx.call(api.write_string_on_file_between_markers, f, t, marker)
            ctx.check(ctx.same(r.value, now == t), 'the verdict of the writer is right in every history')
            now = t
        else:
            r = ctx.call(api.tocs_equal, t, f, marker)
            ctx.check(ctx.same(r.value, now == t), 'the comparison is right in every history')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    D = ('M', '\n', '-', ' ')
    J.append(tjob('verdict', ['M\n\n', (1, ' \n'), '- a', (1, ' \t\v\n'), '\n\nM\n'], tocs=[[(1, ' \t\v\n'), '- a', (1, ' \t\v\n')], '- a']))
    J.append(tjob('verdict', [(7 if T else 6, D)], tocs=['- ', '-', '', '- M']))
    J.append(tjob('verdict', ['M\n\n', (5 if T else 4, D), '\n\nM\n'], tocs=[[(3, D)], '- - ', '- \n- ']))
    J.append(tjob('verdict', ['M', (1, ('\n', '\r', ' ')), (1, ('\n', '\r')), '- a', (1, 'LINE'), '\n\nM\n'], tocs=[['- a', (1, 'LINE')], ['- a', (1, 'LINE'), '\n']], nls=NLS))
    J.append(tjob('verdict', ['M\n\n- a', (2, ('\n', '\r', ' ')), '- b\n\nM\n'], tocs=['- a\n- b', '- a\r- b', '- a\r\n- b\r\n', '- a\n\n- b', '- a \n- b', '- b'], nls=NLS))
    J.append(tjob('verdict', ['x\nM', (1, 'LINE'), '\n'], tocs=[[(2, 'LINE')]]))
    J.append(tjob('verdict', ['M\n', (2, 'LINE'), '\nM\n'], tocs=['', '- a', [(1, 'LINE')]]))
    for p in PARSERS:
        J.append(djob([[TM], '# a', ['#', (1, '# '), ' b', (1, 'cC.[')], '## c'], parser=p, nls=NLS, ends=NLS, ordered=[False, True],
                      no_links=[False, True]))
        J.append(djob(['# x', TM, '', '- [old](#old)', '', TM, ['#', (2, '# a'), ' b']], parser=p, nls=NLS, constant=[False, True],
                      no_indentation=[False, True], marker=TM, keep=6))
    J.append(djob([['# ', (2, 'LINE')], TM], parser=['github', 'cmark'], no_links=True))
    J.append(djob([['#', (3, ('#', ' ', '\t', '\v', 'a', '\\'))], TM], parser=['github', 'cmark'], no_links=[False, True], ordered=[False, True]))
    J.append(djob([['# ', (1, 'LINE'), 'a', (1, 'LINE')], TM], parser=['github', 'cmark', 'redcarpet'], nls=NLS))
    J.append(djob(['```', '# no', [(3, '`~ ')], '# a', TM, '# b', TM, '# c'], parser=['github', 'redcarpet'], nls=NLS))
    J.append(djob([TM, 'text', TM, '', '- x', '', TM, ['# ', (1, 'LINE'), 'a']]))
    J.append(djob(['# skipped', TM, '# a', ['# ', (1, 'ab')]], skip=1, nls=NLS))
    J.append(job('kinds', n=4, lines=[TM, '', '- a', 'x', '# h']))
    J.append(job('kinds', n=3, lines=[TM, '', '- a', '# h', '## h', '```', '    x', '1. a'], no_links=[False, True], ordered=[False, True]))
    J.append(tjob('flat', ['M', (5 if T else 4, ('M', '\n', '#', ' ', 'a'))], no_links=[False, True]))
    J.append(tjob('flat', ['# a\n', (5 if T else 4, ('M', '\n', '-', ' ')), 'M\n'], ordered=[False, True]))
    J.append(djob([TM, ['#', (2, '# '), ' a'], '## b'], parser=['redcarpet', 'github'], ordered=[False, True], nls=NLS))
    # long TOCs and documents
    J.append(djob([TM, rep('# a', (1, 12, 30)), ['#', (1, '# '), ' b'], rep('x', (1, 30))], parser=['github', 'redcarpet'], nls=NLS, ordered=[False, True]))
    J.append(djob([TM, '', rep('- [a](#a)', (1, 30)), ['- [', (1, 'ab'), '](#b)'], '', TM, '# a', '# b'], parser=['github']))
    J.append(tjob('verdict', ['x\nM\n\n', ('- a\n', (1, 12, 40)), (1, ('\n', '-', ' ')), (1, ('\n', 'a')), '\nM\n'], tocs=['- a', '- a\n' * 11 + '- a', '- a\n' * 40, '- a\n' * 41]))
    J.append(tjob('verdict', [('y\n', (1, 50)), 'M\n\n- ', ('a', (1, 3000)), (1, 'bc'), '\n\nM\n'], tocs=['- ab', '- ' + 'a' * 3000 + 'b', '- ' + 'a' * 3000]))
    J.append(tjob('verdict', [('M\nx\n', (1, 8)), 'M\n\n- a', (1, 'bc'), '\n\nM\n'], tocs=['- ab', '']))
    # after other calls
    J.append(job('sequence', tocs=['- a', '- b', '- a\n- b']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('documents of up to eight lines with one or two markers or more, symbolic headings, text and blanks, every newline string, parsers, '
          'ordered, constant, links, indentation, skipped lines; verdicts for files and TOCs of up to 6 (thorough 7) symbolic characters; '
          'TOCs of up to 41 entries and entries of up to 3000 characters; '
          'all histories of three comparisons, writes and changes of the file')
OUTSIDE = 'longer documents; markers that are themselves headings, fences or list entries'
ASSUMPTIONS = ['props/ref.py:ref_existing states which text is the existing TOC']
