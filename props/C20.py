from md_toc import api
from props.common import build, build_lines, line_name, job, djob, pick_opts, api_options, rep, MANY
from props.ref import PARSERS, ref_inplace, ref_split, ref_existing

TM = '<!--TOC-->'


def mjob(fn, tpls, **params):
    name = ' || '.join(' / '.join(map(line_name, t)) for t in tpls)
    extra = ','.join('%s=%r' % kv for kv in params.items())
    return dict(fn=fn, params=dict(tpls=tpls, **params), name='%s(%s%s)' % (fn, name, ',' + extra if extra else ''))


def files(ctx, tpls, end='\n'):
    texts = []
    for i in range(len(tpls)):
        t = end.join(build_lines(ctx, tpls[i], 'F%d_' % i)) + (end if len(tpls[i]) else '')
        ctx.write('f%d.md' % i, t)
        texts.append(t)
    return texts


def build_many(ctx, tpls, twice=False, extra=None, **opts):
    """each TOC equals the TOC of the file alone"""
    opts = api_options(pick_opts(ctx, opts))
    if extra:
        opts.update(pick_opts(ctx, extra))
    texts = files(ctx, tpls)
    n = len(tpls)
    order = ctx.pick('order', [list(range(n)), list(range(n))[::-1]] + ([[0, 0, n - 1]] if twice else []))
    alone = [ctx.call(api.build_toc, ctx.path('f%d.md' % i), **opts) for i in range(n)]
    r = ctx.call(api.build_multiple_tocs, [ctx.path('f%d.md' % i) for i in order], **opts)
    bad = [alone[i] for i in order if not alone[i].ok]
    if bad:
        ctx.check(r.kind == 'exc' and r.value == bad[0].value, 'fails like the first file that fails')
    else:
        ctx.check(r.ok, 'succeeds')
        ctx.check(len(r.value) == len(order), 'one TOC for each file')
        ctx.check(ctx.all([ctx.same(r.value[j], alone[order[j]].value) for j in range(len(order))]), 'each file gets the TOC it gets alone')
    for i in range(n):
        ctx.check(ctx.same(ctx.read('f%d.md' % i), texts[i]), 'no file is changed')


def one_stdin(ctx, tpl, **opts):
    """no file means standard input"""
    opts = api_options(pick_opts(ctx, opts))
    text = '\n'.join(build_lines(ctx, tpl)) + '\n'
    ctx.set_stdin(text)
    a = ctx.call(api.build_toc, '-', **opts)
    ctx.set_stdin(text)
    b = ctx.call(api.build_multiple_tocs, [], **opts)
    ctx.check(a.kind == b.kind, 'same outcome')
    if a.ok:
        ctx.check(ctx.same(b.value, [a.value]), 'no file means standard input')
    else:
        ctx.check(a.value == b.value, 'same error')


def mixed(ctx, tpls, stdin_at):
    """standard input among the files"""
    files(ctx, tpls)
    names = [ctx.path('f%d.md' % i) for i in range(len(tpls))]
    s = '# ' + ctx.str('s', 1, 'ab') + '\n```\n# a\n'
    at = ctx.pick('at', stdin_at)
    ctx.set_stdin(s)
    alone = [ctx.call(api.build_toc, x) for x in names]
    alone.insert(at, ctx.call(api.build_toc, '-'))
    names.insert(at, '-')
    ctx.set_stdin(s)
    r = ctx.call(api.build_multiple_tocs, names)
    if all([x.ok for x in alone]):
        ctx.check(r.ok, 'succeeds')
        ctx.check(ctx.same(r.value, [x.value for x in alone]), 'each file gets the TOC it gets alone')
    else:
        ctx.check(r.kind == 'exc', 'fails')


def write_many(ctx, tpls, tocs, nls=('\n',), marker=TM, ends=('\n',)):
    """each string goes to the file at its position"""
    texts = files(ctx, tpls, ctx.pick('end', ends))
    nl = ctx.pick('nl', nls)
    n = len(tpls)
    strings = [build(ctx, tocs[i], 'T%d_' % i) for i in range(n)]
    names = [ctx.path('f%d.md' % i) for i in range(n)]
    r = ctx.call(api.write_strings_on_files_between_markers, list(names), list(strings), marker, nl)
    ctx.check(r.ok, 'succeeds')
    eq = True
    for i in range(n):
        ctx.check(ctx.same(ctx.read('f%d.md' % i), ref_inplace(texts[i], strings[i], marker, nl)), 'each file gets its string')
        old = ref_existing(ref_split(texts[i])[0], marker)
        new = strings[i].replace('\r\n', '\n').replace('\r', '\n').strip()
        eq = ctx.all([eq, False if old is None else ctx.same(old, new)])
    ctx.check(ctx.same(r.value, eq), 'equal exactly when every file was equal')


def lengths(ctx, top):
    """lists of different lengths"""
    nf, ns = ctx.pick('files', range(top + 1)), ctx.pick('strings', range(top + 1))
    ctx.assume(nf != ns)
    s = ctx.str('s', 1, 'ab')
    text = 'x' + s + '\n' + TM + '\n'
    for i in range(nf):
        ctx.write('f%d.md' % i, text)
    ctx.reset_ops()
    r = ctx.call(api.write_strings_on_files_between_markers, [ctx.path('f%d.md' % i) for i in range(nf)], ['- ' + s] * ns, TM)
    ctx.check(r.kind == 'exc' and r.value == 'ValueError', 'rejected with ValueError')
    for i in range(nf):
        ctx.check(ctx.same(ctx.read('f%d.md' % i), text), 'no file is touched')


def same_file(ctx, n):
    """one file named several times: the strings are written one after the other"""
    text = 'x\n' + TM + '\n\n- a\n\n' + TM + '\n'
    ctx.write('f0.md', text)
    ctx.write('f1.md', text)
    names = [ctx.pick('n%d' % i, [0, 1]) for i in range(n)]
    strings = ['- ' + ctx.str('s%d' % i, 1, 'ab') for i in range(n)]
    r = ctx.call(api.write_strings_on_files_between_markers, [ctx.path('f%d.md' % k) for k in names], list(strings), TM)
    ctx.check(r.ok, 'succeeds')
    now = ['- a', '- a']
    eq = True
    for i in range(n):
        eq = ctx.all([eq, ctx.same(now[names[i]], strings[i])])
        now[names[i]] = strings[i]
    for k in range(2):
        ctx.check(ctx.same(ctx.read('f%d.md' % k), ref_inplace(text, now[k], TM, '\n')), 'the last string for a file stays')
    ctx.check(ctx.same(r.value, eq), 'equal exactly when every write found its string there')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    H = ('#', ' ', 'a')
    J.append(mjob('build_many', [['# a', '# a'], ['# a', ['# ', (1, 'LINE')]]], parser=PARSERS[:5], twice=True))
    J.append(mjob('build_many', [['# a', '# a'], ['# a', ['# ', (1, 'LINE'), 'a']]], parser=['redcarpet'], twice=True))
    J.append(mjob('build_many', [['# a', '## b', '### c'], [['#', (2, H), ' b'], '# a']], parser=['github', 'gitlab', 'redcarpet'], ordered=[False, True],
                  twice=True))
    J.append(mjob('build_many', [[['``', (1, '` '), (1, '~`a')], '# a'], ['# b', [(3, '`~')], '# a'], ['# c']], parser=['github', 'cmark', 'redcarpet']))
    J.append(mjob('build_many', [['## a', '### b'], ['# a', ['#', (1, '# '), ' b']]], ordered=[False, True], no_coherence=[False, True],
                  no_indentation=[False, True], parser=PARSERS))
    J.append(mjob('build_many', [[], ['# a'], [['# ', (1, ' a')]]], parser=PARSERS, constant=[False, True]))
    J.append(mjob('build_many', [['# a', '# b', '### c'], ['## ' + 'c', '# a']], extra=dict(skip_lines=[0, 1, 2, 5]), keep=[1, 2, 3, 6], twice=True))
    J.append(mjob('build_many', [['# a', '# b'], ['# a', '## b'], ['# a', '# a']], marker=['-', '*', '+', '.', ')'], ordered=[False, True],
                  newline=['\n', '\r\n'], no_links=[False, True], twice=True))
    J.append(djob(['# a', ['# ', (2, 'LINE')]], 'one_stdin', parser=['github', 'gitlab', 'cmark']))
    J.append(djob(['# a', '## b', ['#', (2, H), 'a']], 'one_stdin', parser=PARSERS, ordered=[False, True], no_links=[False, True]))
    J.append(mjob('mixed', [['# a', '# b'], ['# a', [(2, H), 'a']]], stdin_at=[0, 1, 2]))
    OLD = [TM, '', '- a', '', TM]
    A = ('a', '-', ' ')
    J.append(mjob('write_many', [['x'] + OLD, OLD, OLD + ['y']], tocs=[['- ', (1, 'ab')], ['- ', (1, 'ab')], ['- ', (1, 'ab')]], nls=['\n', '\r\n', '\r'],
                  ends=['\n', '\r\n', '\r']))
    J.append(mjob('write_many', [['x', TM], OLD, ['y']], tocs=[['- ', (1, 'LINE')], [(3, A)], ['- b']]))
    J.append(mjob('write_many', [OLD, ['z']], tocs=[['- ', (1, 'LINE')], [(1, 'LINE')]]))
    J.append(mjob('write_many', [], tocs=[]))
    J.append(job('lengths', top=4))
    if T:
        J.append(mjob('build_many', [[[(4, ('#', ' ', 'a', '`'))], '# a'], ['# a', [(4, ('#', ' ', 'a', '`'))]]], parser=['github', 'redcarpet']))
        J.append(mjob('build_many', [['# a', ['# ', (2, 'LINE')]], [['# ', (1, 'LINE')], '# a']], parser=['github', 'gitlab']))
        J.append(mjob('write_many', [['M', '', [(3, ('-', ' ', 'a', 'M'))], '', 'M'], ['M', [(3, ('-', ' ', 'a'))], 'M']], tocs=[['- ', (1, 'a ')], ['- a']], marker='M'))
    # many and long files
    J.append(mjob('build_many', [['# a', '# a'], ['# b'], ['# c'], ['# ', '# d'], ['# e', ['# ', (1, 'eE.')]], ['## f'], ['# a', ['#', (1, '# '), ' b']]],
                  parser=['gitlab', 'redcarpet']))
    J.append(mjob('build_many', [['# a']] * 11 + [['# a', ['# ', (1, 'ab')]]], parser=['github']))
    J.append(mjob('build_many', [[rep('# a', (1, 30)), ['# ', (1, 'ab')]], ['# a', rep('x', (1, 60)), '# a']], parser=['github', 'redcarpet'], twice=True))
    J.append(mjob('write_many', [OLD] * 6, tocs=[['- a'], ['- a'], ['- ', (1, 'ab')], ['- ', (1, 'ab')], ['- ', (1, 'ab')], ['- ', (1, 'ab')]]))
    J.append(mjob('write_many', [OLD] * 12, tocs=[['- a']] * 11 + [['- ', (1, 'ab')]]))
    J.append(mjob('write_many', [[rep('x', (1, 100))] + OLD, OLD], tocs=[[('- a\n', (1, 100)), (1, 'ab')], ['- ', (1, 'ab')]]))
    J.append(job('same_file', n=3))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('one to three files of up to three lines with one or two symbolic lines, in both orders and with a file repeated, and the options; '
          'standard input alone and among files; up to three strings with symbolic characters; lists of 0 to 4 names and strings; '
          'up to twelve files, up to 100 lines, the same file written up to three times')
OUTSIDE = 'more than three files, longer ones'
ASSUMPTIONS = []
