from md_toc import api
from props.common import build, build_lines, job, djob, tjob, rep
from props.ref import ref_inplace

TM = '<!--TOC-->'
NLS = ['\n', '\r\n', '\r']
MSG = 'in-place writing changes only the TOC region'


def write(ctx, text, toc, marker, nl, mode=0o644):
    ctx.write('doc.md', text, mode)
    ctx.write('other.md', 'M\n')
    r = ctx.call(api.write_string_on_file_between_markers, ctx.path('doc.md'), toc, marker, nl)
    ctx.check(r.ok, 'succeeds')
    ctx.check(ctx.same(ctx.read('doc.md'), ref_inplace(text, toc, marker, nl)), MSG)
    ctx.check(ctx.filemode('doc.md') == mode, 'the permissions are kept')
    ctx.check(ctx.listdir() == ['doc.md', 'other.md'] and ctx.same(ctx.read('other.md'), 'M\n'), 'no other file is touched')


def flat(ctx, parts, toc='- t', marker='M', nls=('\n',)):
    """text as a string of symbolic characters"""
    nl = ctx.pick('nl', nls)
    toc = ctx.pick('toc', toc) if isinstance(toc, (list, tuple)) else toc
    write(ctx, build(ctx, parts), toc, marker, nl)


def docs(ctx, tpl, toc=('- t',), marker=TM, nls=('\n',), ends=('\n',), modes=(0o644,)):
    lines = build_lines(ctx, tpl)
    end = ctx.pick('end', ends)
    last = ctx.pick('last', [end, ''])
    write(ctx, end.join(lines) + last, ctx.pick('toc', toc), marker, ctx.pick('nl', nls), ctx.pick('mode', modes))


def kinds(ctx, n, lines, marker=TM, nls=('\n',)):
    """n lines, each of one of the given shapes"""
    out = [ctx.pick('l%d' % i, lines) for i in range(n)]
    nl = ctx.pick('nl', nls)
    write(ctx, '\n'.join(out) + ctx.pick('last', ['\n', '']), '- [x](#x)\n', marker, nl)


def toc(ctx, parts, marker=TM, nls=('\n', '\r\n')):
    """any TOC text"""
    t = build(ctx, parts)
    doc = ctx.pick('doc', ['a\n%s\nb\n', 'a\n%s', '%s\n\n- old\n\n%s\nb', 'a\nb\n'])
    write(ctx, doc.replace('%s', marker), t, marker, ctx.pick('nl', nls))


def ways(ctx, tpl, marker=TM, nls=('\n',)):
    """the file named by a relative path or through links; temporary files on another file system"""
    text = '\n'.join(build_lines(ctx, tpl)) + '\n'
    nl = ctx.pick('nl', nls)
    mode = ctx.pick('mode', [0o644, 0o600])
    ctx.write('doc.md', text, mode)
    ctx.write('other.md', 'M\n')
    ctx.link('link.md', 'doc.md')
    ctx.link('second.md', 'link.md')
    how = ctx.pick('how', ['relative', 'dot', 'dots', 'link', 'links', 'relative link', 'xdev'])
    name = {'relative': 'doc.md', 'dot': './doc.md', 'dots': ctx.path('.') + '/./doc.md', 'link': ctx.path('link.md'), 'links': ctx.path('second.md'),
            'relative link': 'second.md', 'xdev': ctx.path('doc.md')}[how]
    if how == 'xdev':
        ctx.xdev(True)
    r = ctx.call(api.write_string_on_file_between_markers, name, '- t', marker, nl)
    ctx.xdev(False)
    ctx.check(r.ok, 'succeeds')
    ctx.check(ctx.same(ctx.read('doc.md'), ref_inplace(text, '- t', marker, nl)), MSG + ', however the file is named')
    ctx.check(ctx.filemode('doc.md') == mode, 'the permissions are kept')
    ctx.check(ctx.listdir() == ['doc.md', 'link.md', 'other.md', 'second.md'] and ctx.same(ctx.read('other.md'), 'M\n')
              and ctx.islink('link.md') and ctx.islink('second.md') and not ctx.islink('doc.md'), 'no other file is touched, links stay links')


def twice(ctx, tpl, marker=TM):
    """a second write with another TOC or marker"""
    lines = build_lines(ctx, tpl)
    text = '\n'.join(lines) + '\n'
    ctx.write('doc.md', text)
    f = ctx.path('doc.md')
    a, b = ctx.pick('a', ['- a', '- a\n- b\n- c', '', '1. a']), ctx.pick('b', ['- b', '- a\n  - d', ''])
    other = ctx.pick('other', [marker, 'N'])
    r = ctx.call(api.write_string_on_file_between_markers, f, a, other)
    ctx.check(r.ok, 'succeeds')
    one = ref_inplace(text, a, other, '\n')
    ctx.check(ctx.same(ctx.read('doc.md'), one), MSG)
    if ctx.flag('rewrite'):
        one = 'x\n' + text
        ctx.write('doc.md', one)
    r = ctx.call(api.write_string_on_file_between_markers, f, b, marker)
    ctx.check(r.ok, 'succeeds')
    ctx.check(ctx.same(ctx.read('doc.md'), ref_inplace(one, b, marker, '\n')), MSG + ', also the second time')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    A = ('M', '\n', '-', ' ')
    B = ('M', '\n', '\r', 'x')
    J.append(tjob('flat', [(8 if T else 6, A)]))
    J.append(tjob('flat', ['M', (8 if T else 6, A), 'M\n']))
    J.append(tjob('flat', ['M\n\n', (8 if T else 6, A), '\n\nM\n']))
    J.append(tjob('flat', ['M\n\n- x', (3, B), '\n', (2, B), 'M']))
    J.append(tjob('flat', [(7 if T else 6, B)], nls=NLS))
    J.append(tjob('flat', ['M', (1, B), (1, ' \t\vx'), '1', (1, '.)'), (1, ' -'), (1, B), '\nM'], nls=NLS))
    J.append(tjob('flat', ['M\n\n', (2, 'LINE'), 'a\n\nM\nx']))
    J.append(tjob('flat', ['M\n\n', (1, '- 1'), (2, 'LINE'), '\n\nM\nx']))
    J.append(tjob('flat', ['M\n\n ', (1, ' -'), (1, ' -+1'), (1, 'LINE'), (1, ' -.'), 'a\n\nM\nx']))
    J.append(tjob('flat', ['M\n\n1', (2, '0'+'9.) '), (1, ' ab'), 'a\n\nM\nx']))
    J.append(tjob('flat', ['x\n', (1, 'LINE'), 'M', (1, 'LINE'), '\ny\n']))
    J.append(tjob('flat', [(2, 'LINE'), '\nM\n', (1, 'LINE')]))
    J.append(tjob('flat', ['M\n', (2, 'LINE'), '\nM\nz']))
    J.append(tjob('flat', ['M\n\n- [a](#a)\n', (4, (' ', '-', '\n', 'M')), 'M\nx\nM\n\n- b\n\nM']))
    for m in (TM, '[TOC]'):
        J.append(djob(['# a', [(1, ' \tx'), m, (1, ' \tx')], 'b'], marker=m, nls=NLS, ends=NLS, toc=['- t', '', '- a\n  - b\n', '- a\r\n- b\r\n']))
    J.append(djob([TM, '', ['- ', (1, 'LINE')], '', TM, 'x'], nls=NLS, modes=[0o644, 0o600, 0o755, 0o664]))
    J.append(djob([TM, (['', '- a', ''])[0], '1. a', '   1. b', '', TM, [(1, 'LINE')], TM, '', TM, 'end'], nls=NLS))
    J.append(job('kinds', n=5 if T else 4, lines=[TM, '', '- a', 'text', '  ' + TM + ' ']))
    J.append(job('kinds', n=3, lines=[TM, '', '- a', 'text', '\t', '```', '# h', '    - a', 'a ' + TM], nls=NLS))
    J.append(tjob('toc', [(2, 'LINE'), (1, ('a', '\n', '\r', ' ')), (1, ('-', '\n', '\r', ' '))]))
    J.append(tjob('toc', ['- [a', (1, 'LINE'), '](#a)', (2, ('\n', '\r', ' '))]))
    # long files, many markers, long TOCs
    J.append(djob([rep('a', (1, 60)), [(1, ' x'), TM], rep([(1, 'ab')], (1, 60))], nls=NLS))
    J.append(djob([TM, '', rep('- a', (1, 30)), [(1, ' -'), ' b'], '', TM, rep('x', (1, 60)), 'y'], toc=['- t', '- t\n' * 40]))
    J.append(djob([rep([TM], (1, 2, 3, 4, 5, 6, 20)), ['x', (1, 'ab')], rep(TM, (1, 2, 3)), 'z']))
    J.append(djob([rep('- q', (1, 12)), TM, 'x', TM, 'x', TM, 'x', TM, 'x', TM, '', ['- ', (1, ' ab')], '', TM, 'end']))
    J.append(djob([['a', (1, 'LINE', (1, 9000))], [(' ', (0, 300)), TM, ('\t', (0, 300))], ['b', ('c', (1, 9000))]], nls=NLS))
    J.append(djob([TM, '', [('1', (1, 12)), (1, '.)'), ' a', ('b', (1, 3000))], '', [TM, (1, 'x ')], 'x'], toc=['- t', '1. ' + 't' * 3000]))
    # other names of the file
    J.append(djob(['x', [TM, (1, ' x')], [(1, 'LINE')]], 'ways'))
    J.append(djob([TM, '', '- a', '', [TM, (1, ' x')], 'x'], 'ways', nls=NLS))
    # after other calls
    J.append(djob(['x', TM, ['', (1, '- '), 'a'], TM, 'N', [(1, 'N '), 'b']], 'twice'))
    J.append(djob(['x', TM, '', [(1, '-1'), (1, ' .'), ' c'], '', TM, 'N'], 'twice'))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('files of up to 5 (thorough 8) symbolic characters over marker, line ends, list marker, blank and text around fixed parts; files of '
          'up to 4 (thorough 5) lines of each shape; symbolic characters (ASCII and Unicode representatives) around markers, list markers and in the '
          'TOC; LF, CRLF and CR in the file and as newline string; one, two, three and more markers; permissions; '
          'files of up to 120 lines, up to 23 markers, lines of up to 9000 characters; '
          'absolute and relative names, links, temporary files on another file system; '
          'two writes of different TOCs or markers')
OUTSIDE = 'longer files; newline strings other than LF, CRLF and CR; the marker being a list entry'
ASSUMPTIONS = ['props/ref.py:ref_inplace states where the TOC goes',
               'text-mode file semantics of symex/fs.py (checked against the real file system by replaying every reported path sample)']
