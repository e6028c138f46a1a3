from md_toc import api
from md_toc.__main__ import main
from props.common import build_lines, job, djob
from props.ref import PARSERS, ref_inplace, ref_split, ref_existing

TM = '<!--TOC-->'
# sensitive to every option: levels 1 to 4, duplicates, a link label to escape, a code fence, a jump
RICH = ['# a', '## b [', '### c', '```', '# no', '```', '#### d', '## a', '# a', TM]
JUMP = ['## a', '#### b', '# c', TM]
DEEP = 6        # default of the command line


def cli(ctx, args):
    ctx.argv(['md_toc'] + args)
    ctx.stdout()
    r = ctx.call(main)
    return r, ctx.stdout()


def markers(parser):
    return ['-', '+', '*'], (['.'] if parser == 'redcarpet' else ['.', ')'])


def options(ctx, which, long=False):
    """(global arguments, parser arguments, keyword arguments of the API)"""
    parser = ctx.pick('parser', PARSERS)
    g, s, k = [], [], dict(parser=parser, keep_header_levels=DEEP, list_marker='-')
    un, od = markers(parser)
    if 'list' in which:
        st = ctx.pick('list', [None, '-u', '-o'] + ['-u' + x for x in un] + ['-o' + x for x in od])
        if st:
            m = st[2:]
            flag = {'-u': '--unordered-list-marker', '-o': '--ordered-list-marker'}[st[:2]] if long else st[:2]
            s += [flag] + ([m] if m else [])
            k['ordered'] = st[:2] == '-o'
            k['list_marker'] = m or ('.' if k['ordered'] else '-')
    if 'constant' in which and ctx.flag('constant'):
        s.append('--constant-ordered-list' if long else '-c')
        k['constant_ordered_list'] = True
    if 'levels' in which:
        lv = ctx.pick('levels', [None, 'l', 1, 2, 3, 4, 5, 6])
        if lv:
            s.append('--header-levels' if long else '-l')
            if lv != 'l':
                s.append(str(lv))
                k['keep_header_levels'] = lv
    if 'links' in which and ctx.flag('links'):
        g.append('--no-links' if long else '-l')
        k['no_links'] = True
    if 'shape' in which:
        sh = ctx.pick('shape', [None, 'c', 'i'])
        if sh == 'c':
            g.append('--no-list-coherence' if long else '-c')
            k['no_list_coherence'] = True
        elif sh == 'i':
            g.append('--no-indentation' if long else '-i')
            k['no_indentation'] = True
    if 'skip' in which:
        n = ctx.pick('skip', [None, 0, 1, 3, 4, 100, -1])
        if n is not None:
            g += ['--skip-lines' if long else '-s', str(n)]
            k['skip_lines'] = n
    if 'newline' in which:
        nl = ctx.pick('newline', [None, '\\n', '\\r', '\\r\\n'])
        if nl:
            g += ['--newline-string' if long else '-n', nl]
            k['newline_string'] = {'\\n': '\n', '\\r': '\r', '\\r\\n': '\r\n'}[nl]
    return g, s, k


def printed(ctx, tpl, which, stdin=False, long=False):
    """the printed TOC is the TOC of the API"""
    g, s, k = options(ctx, which, long)
    text = '\n'.join(build_lines(ctx, tpl)) + '\n'
    p = k['parser']
    if stdin:
        how = ctx.pick('how', [[], ['-']])
        ctx.set_stdin(text)
        want = ctx.call(api.build_toc, '-', **k)
        ctx.set_stdin(text)
        files = how
    else:
        ctx.write('doc.md', text)
        files = [ctx.path('doc.md')]
        want = ctx.call(api.build_toc, files[0], **k)
    r, out = cli(ctx, g + [p] + files + s)
    if want.ok:
        ctx.check(ctx.same(out, want.value), 'prints the TOC of the API')
        ctx.check(r.kind == 'exit' and r.value == 0, 'exits with 0')
    else:
        ctx.check(r.kind == 'exit' and r.value == 1, 'exits with 1 on an error')
        ctx.check(ctx.same(out, ''), 'prints no TOC on an error')
    if not stdin:
        ctx.check(ctx.same(ctx.read('doc.md'), text), 'the file is not changed')


def inplace(ctx, tpl, which, marker=TM, long=False):
    """the written file is the one of the API, exit status with and without diff"""
    g, s, k = options(ctx, which, long)
    text = '\n'.join(build_lines(ctx, tpl)) + '\n'
    p = k['parser']
    ctx.write('doc.md', text)
    f = ctx.path('doc.md')
    want = ctx.call(api.build_toc, f, **k)
    diff = ctx.flag('diff')
    if diff:
        g = g + ['--diff' if long else '-d']
    if marker != TM:
        g = g + ['--toc-marker' if long else '-m', marker]
    wr = ctx.flag('write')
    if wr:
        g = g + ['--in-place' if long else '-p']
    r, out = cli(ctx, g + [p, f] + s)
    after = ctx.read('doc.md')
    if not want.ok:
        ctx.check(r.kind == 'exit' and r.value == 1, 'exits with 1 on an error')
        ctx.check(ctx.same(after, text), 'the file is not changed on an error')
        return
    nl = k.get('newline_string', '\n')
    lines, _ = ref_split(text)
    old = ref_existing(lines, marker)
    new = want.value.replace('\r\n', '\n').replace('\r', '\n').strip()
    equal = False if old is None else ctx.same(old, new)
    if diff:
        ctx.check(r.kind == 'exit', 'exits')
        ctx.check(ctx.same(r.value == 128, ctx.neg(equal)), 'exits with 128 when the TOC differs')
        ctx.check(ctx.implies(equal, r.value == 0), 'exits with 0 when the TOC is the same')
    else:
        ctx.check(r.kind == 'exit' and r.value == 0, 'exits with 0')
    if wr:
        ctx.check(ctx.same(after, ref_inplace(text, want.value, marker, nl)), 'writes the TOC of the API')
        ctx.check(ctx.same(out, ''), 'prints nothing')
    else:
        ctx.check(ctx.same(after, text), 'the file is not changed')
        ctx.check(ctx.same(out, want.value), 'prints the TOC of the API')


def several(ctx, tpls, which):
    """several files"""
    g, s, k = options(ctx, which)
    p = k['parser']
    diff, wr = ctx.flag('diff'), ctx.flag('write')
    files, texts, wants = [], [], []
    for i in range(len(tpls)):
        t = '\n'.join(build_lines(ctx, tpls[i], 'F%d_' % i)) + '\n'
        ctx.write('f%d.md' % i, t)
        texts.append(t)
        files.append(ctx.path('f%d.md' % i))
        wants.append(ctx.call(api.build_toc, files[i], **k))
    r, out = cli(ctx, g + (['-d'] if diff else []) + (['-p'] if wr else []) + [p] + files + s)
    if not all([w.ok for w in wants]):
        ctx.check(r.kind == 'exit' and r.value == 1, 'exits with 1 on an error')
        for i in range(len(files)):
            ctx.check(ctx.same(ctx.read('f%d.md' % i), texts[i]), 'no file is changed on an error')
        return
    eq = True
    for i in range(len(files)):
        old = ref_existing(ref_split(texts[i])[0], TM)
        eq = ctx.all([eq, False if old is None else ctx.same(old, wants[i].value.strip())])
        e = ref_inplace(texts[i], wants[i].value, TM, '\n') if wr else texts[i]
        ctx.check(ctx.same(ctx.read('f%d.md' % i), e), 'each file gets its TOC')
    ctx.check(ctx.same(out, '' if wr else ''.join([w.value for w in wants])), 'prints every TOC')
    ctx.check(r.kind == 'exit', 'exits')
    if diff:
        ctx.check(ctx.same(r.value == 128, ctx.neg(eq)), 'exits with 128 when one TOC differs')
        ctx.check(ctx.implies(eq, r.value == 0), 'exits with 0 when all are the same')
    else:
        ctx.check(r.value == 0, 'exits with 0')


BADARGS = [
    [], ['FILE'], ['markdown', 'FILE'], ['github', 'FILE', '-u', '.'], ['github', 'FILE', '-o', '-'], ['redcarpet', 'FILE', '-o', ')'],
    ['github', 'FILE', '-l', '0'], ['cmark', 'FILE', '-l', '7'], ['gitlab', 'FILE', '-l', 'x'], ['redcarpet', 'FILE', '-l', '-1'],
    ['github', 'FILE', '-u', '+', '-o', '.'], ['-c', '-i', 'github', 'FILE'], ['-s', 'x', 'github', 'FILE'], ['-s'], ['-n', 'x', 'github', 'FILE'],
    ['-n', 'n', 'github', 'FILE'], ['--unknown', 'github', 'FILE'], ['github', 'FILE', '--unknown'], ['cmark', 'FILE', '-u', 'x'],
    ['redcarpet', 'FILE', '-l', '7'], ['-m'], ['github', '-u', '+', '-o', '.', 'FILE'], ['goldmark', 'FILE', '-o', '*'], ['commonmarker', 'FILE', '-l', '9'],
]


def invalid(ctx, n):
    """invalid command lines"""
    a = ctx.pick('args', BADARGS)
    c = ctx.str('c', n, 'ab ')
    text = '# ' + c + '\n' + TM + '\n'
    ctx.write('doc.md', text)
    p = ctx.flag('p')
    r, out = cli(ctx, (['-p'] if p else []) + [ctx.path('doc.md') if x == 'FILE' else x for x in a])
    ctx.check(r.kind == 'exit' and r.value == 2, 'exits with 2')
    ctx.check(ctx.same(out, ''), 'prints no TOC')
    ctx.check(ctx.same(ctx.read('doc.md'), text), 'the file is not changed')


def failing(ctx):
    """errors exit with 1"""
    p = ctx.pick('parser', PARSERS)
    how = ctx.pick('how', ['missing', 'missing-second', 'stdin-in-place', 'stdin-in-place-dash', 'stdin-diff', 'stdin-diff-second', 'negative', 'empty', 'undecodable'])
    t = '# ' + ctx.str('c', 1, 'ab') + '\n' + TM + '\n'
    ctx.write('doc.md', t)
    f = ctx.path('doc.md')
    ctx.set_stdin(t)
    pl = ctx.pick('place', [[], ['-p']])
    a = {'missing': pl + [p, ctx.path('no.md')], 'missing-second': pl + [p, f, ctx.path('no.md')],
         'stdin-in-place': ['-p', p], 'stdin-in-place-dash': ['-p', p, '-'], 'stdin-diff': ['-d', p, '-'], 'stdin-diff-second': ['-d', p, f, '-'],
         'negative': pl + ['-s', '-3', p, f], 'empty': pl + [p, f],
         'undecodable': [pl[0] if pl else '-d', p, f]}[how]
    if how == 'empty':
        if p == 'redcarpet':
            return
        t = '# \n' + TM + '\n'
        ctx.write('doc.md', t)
    if how == 'undecodable':
        t = t + 'a\udcff' + t
        ctx.write('doc.md', t)
    r, out = cli(ctx, a)
    ctx.check(r.kind == 'exit' and r.value == 1, 'exits with 1')
    ctx.check(ctx.same(ctx.read('doc.md'), t), 'the file is not changed')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    J.append(djob(RICH, 'printed', which=['list', 'constant']))
    J.append(djob(RICH, 'printed', which=['levels', 'links'], long=True))
    J.append(djob(RICH, 'printed', which=['list', 'constant'], long=True))
    J.append(djob(RICH, 'printed', which=['shape', 'skip']))
    J.append(djob(RICH, 'printed', which=['newline', 'shape', 'links'], long=True))
    J.append(djob(RICH, 'printed', which=['skip', 'links'], long=True))
    J.append(djob(RICH, 'printed', which=['levels']))
    J.append(djob(JUMP, 'printed', which=['list', 'constant', 'shape']))
    J.append(djob(RICH, 'printed', which=['newline']))
    J.append(djob(JUMP, 'printed', which=['shape', 'levels']))
    J.append(djob(RICH, 'printed', which=['skip', 'shape'], stdin=True))
    J.append(djob(['# x', ['#', (2, 'LINE'), 'a']], 'printed', which=[]))
    J.append(djob(['# x', ['#', (1, ' #'), ' b', (1, 'LINE')]], 'printed', which=[], stdin=True))
    J.append(djob(['# a', '', TM, '', ['- [', (1, 'ab'), '](#a)', (1, ' -x')], '', TM], 'inplace', which=[]))
    J.append(djob(['# a', TM, '', '- [a](#a)', '', TM, [(2, ('#', ' ', 'b'))]], 'inplace', which=['newline'], long=True))
    J.append(djob(['# a', 'M', '# b', 'M', '', [(1, '-+ '), ' [a](#a)'], '', 'M'], 'inplace', which=['links'], marker='M'))
    J.append(djob(['# a', 'M', '', [(1, '-+'), ' [a](#a)'], '', 'M'], 'inplace', which=['newline'], marker='M'))
    J.append(djob(['# a', 'M', '', [(1, '-+'), ' [a](#a)'], '', 'M', TM, '', '- [a](#a)', '', TM], 'inplace', which=[], marker='M'))
    J.append(djob(['# a', TM, '', [(1, '-+'), ' [a](#a)'], '', TM, 'M', '', '- [a](#a)', '', 'M'], 'inplace', which=[], marker=TM))
    J.append(djob(['# a', [(1, 'M '), (1, 'M ')], TM], 'inplace', which=['list'], marker='M', long=True))
    for m in (' M', 'M ', '\tM', 'm M'):
        J.append(djob(['# a', m, '', [(1, '-+'), ' [a](#a)'], '', m, m.strip()], 'inplace', which=[], marker=m))
    J.append(djob(['## a', '#### b', TM], 'inplace', which=['shape', 'skip']))
    J.append(djob([], 'several', tpls=[['# a', TM, '', '- [a](#a)', '', TM], ['# ', '# a'], ['# b']], which=['skip']))
    J.append(djob([], 'several', tpls=[['# a', TM, '', [(1, '-+'), ' [a](#a)'], '', TM], ['# b', TM, '', ['- [', (1, 'ab'), '](#b)'], '', TM]], which=[]))
    J.append(djob([], 'several', tpls=[['# a', TM], ['# a', '# a', TM], ['```', '# a', TM]], which=['list']))
    for j in J:
        if j['fn'] == 'several':
            del j['params']['tpl']
    J.append(job('invalid', n=1))
    J.append(job('failing'))
    if T:
        J.append(djob(RICH, 'printed', which=['list', 'constant', 'levels', 'links']))
        J.append(djob(RICH, 'printed', which=['shape', 'skip', 'newline', 'links']))
        J.append(djob(JUMP, 'printed', which=['shape', 'levels', 'list', 'constant'], long=True))
        J.append(djob(RICH, 'inplace', which=['list', 'constant', 'newline', 'links']))
    return J


BUDGET = dict(quick=300, thorough=2400)
BOUNDS = ('each option in every form, short and long, alone and combined with the ones it interacts with, for the six parsers, on documents '
          'that make every option visible and with up to three symbolic characters; file and standard input; one to three files; in place, diff '
          'and both; a table of invalid command lines and of failing ones')
OUTSIDE = 'combinations of more than four options; help and version; arguments that are abbreviations; argparse itself (runs natively)'
ASSUMPTIONS = ['argparse behaves on the concrete arguments as it does outside the engine']
