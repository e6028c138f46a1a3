from md_toc import api
from props.common import build, build_lines, job, djob, tjob, rep
from props.ref import ref_inplace

TM = '<!--TOC-->'


def atomic(ctx, tpl, kinds=('crash', 'error'), top=40, toc='- t', marker=TM, nls=('\n',), via='one', xdev=False):
    """the operation number `at` of the file system fails"""
    nl = ctx.pick('nl', nls)
    text = '\n'.join(build_lines(ctx, tpl)) + '\n'
    new = ref_inplace(text, toc, marker, nl)
    ctx.write('doc.md', text)
    ctx.write('second.md', text)
    kind = ctx.pick('kind', kinds)
    at = ctx.pick('at', range(top))
    ctx.reset_ops()
    if xdev:
        # temporary files lie on another file system
        ctx.xdev(True)
    ctx.fault(kind, at)
    if via == 'one':
        r = ctx.call(api.write_string_on_file_between_markers, ctx.path('doc.md'), toc, marker, nl)
    else:
        r = ctx.call(api.write_strings_on_files_between_markers, [ctx.path('doc.md'), ctx.path('second.md')], [toc, toc], marker, nl)
    n = ctx.nops()
    ctx.nofault()
    ctx.xdev(False)
    for name in ('doc.md', 'second.md'):
        c = ctx.read(name)
        ctx.check(c is not None, 'the file is still there')
        ctx.check(ctx.any([ctx.same(c, text), ctx.same(c, new)]), 'the file holds its previous or its updated content')
        ctx.check(ctx.filemode(name) == 0o644, 'the permissions are kept')
    if at < n:
        if kind == 'error':
            # an operation failed: the caller is told, unless the TOC was written all the same
            c = ctx.read('doc.md')
            d = ctx.read('second.md')
            done = ctx.all([ctx.same(c, new), True if via == 'one' else ctx.same(d, new)])
            ctx.check(ctx.any([r.kind == 'exc', done]), 'an error is reported')
    else:
        ctx.check(r.ok, 'succeeds without a fault')
        ctx.check(ctx.same(ctx.read('doc.md'), new), 'updated without a fault')


def undecodable(ctx, parts, marker='M'):
    """a file that cannot be read is left alone"""
    text = build(ctx, parts)
    ctx.write('doc.md', text)
    r = ctx.call(api.write_string_on_file_between_markers, ctx.path('doc.md'), '- t', marker)
    ctx.check(r.kind == 'exc' and r.value == 'UnicodeDecodeError', 'an error is reported')
    ctx.check(ctx.same(ctx.read('doc.md'), text), 'the file is left alone')
    ctx.check(ctx.listdir() == ['doc.md'], 'no other file is left')


def refused(ctx):
    """missing file, standard input"""
    name = ctx.pick('name', ['-', 'missing'])
    s = '- ' + ctx.str('s', 1, 'ab')
    r = ctx.call(api.write_string_on_file_between_markers, '-' if name == '-' else ctx.path('no.md'), s, TM)
    ctx.check(r.kind == 'exc', 'an error is reported')
    ctx.check(ctx.listdir() == [], 'nothing is created')


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    A = ('M', 'x', ' ')
    J.append(djob(['a', TM, 'b'], 'atomic', nls=['\n', '\r\n', '\r']))
    J.append(djob(['a', TM, '', '- old', '', TM, 'b'], 'atomic', nls=['\n', '\r\n', '\r']))
    J.append(djob(['a', TM, '', '- old', '', TM, 'b'], 'atomic', xdev=True))
    J.append(djob([[(2, A)], 'a', [(2, A)]], 'atomic', marker='M', xdev=True))
    J.append(djob([TM, 'text', TM, 'b'], 'atomic'))
    J.append(djob([TM, TM], 'atomic'))
    J.append(djob(['a', 'b'], 'atomic'))
    J.append(djob([[(2, A)], 'a', [(2, A)], [(1, A)]], 'atomic', marker='M'))
    J.append(djob(['M', '', ['-', (2, 'LINE')], '', 'M', [(1, 'LINE')]], 'atomic', marker='M'))
    J.append(djob(['M', [(1, 'LINE')]], 'atomic', marker='M', toc=''))
    J.append(djob(['a', TM, '', '- old', '', TM, 'b'], 'atomic', via='many', top=60))
    J.append(djob(['a', ['<!--TOC--', (1, '> ')]], 'atomic', via='many', top=60))
    J.append(tjob('undecodable', ['M\n', (1, ('x', '\n')), (1, ('\udcff',)), '\nM\n']))
    J.append(tjob('undecodable', ['M\n', 'x' * 9000, (1, ('\udcff',)), '\nM\n']))
    J.append(job('refused'))
    if T:
        J.append(djob([[(3, ('M', 'x', ' ', '-'))], [(2, A)], [(2, A)], [(2, A)]], 'atomic', marker='M'))
    J.append(djob([rep('x', (1, 400)), 'M', rep(['-', (1, 'ab')], (1, 300)), 'M', rep('y' * 50, (1, 400))], 'atomic', marker='M', toc='- t\n' * 300))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('a crash or an I/O error at each of the first 40 (two files: 60) mutating file operations (create, open for writing, write, flush, sync, chmod, '
          'rename, remove) of an in-place write, for files with no, one, two or three markers and symbolic text; undecodable and missing files; '
          'files of up to 1100 lines; the directory for temporary files on the same or on another file system')
OUTSIDE = ('power loss that reorders writes after they were acknowledged (the operation order is taken as the disk order); failing reads; faults inside '
           'one native call (shutil.copyfile counts as truncate plus write)')
ASSUMPTIONS = ['rename replaces the target in one step (POSIX)']
