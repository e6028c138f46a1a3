from md_toc import api
from props.common import build, tjob, assume_not_in, job, SOME, MANY
from props.ref import ref_emph, LETTER

MSG = 'exactly the emphasis delimiters are removed'


def line(ctx, parts, parser='github'):
    s = build(ctx, parts)
    # what follows is outside the claim (see OUTSIDE)
    assume_not_in(ctx, s, '??>', ']]]>')
    for i in range(len(s) - 2):
        ctx.assume(ctx.neg(ctx.all([s[i] == '<', s[i + 1] == '!', s[i + 2] in LETTER])))
    r = ctx.call(api.remove_emphasis, s, parser)
    ctx.check(r.ok, 'emphasis removal returns')
    ctx.check(ctx.same(r.value, ref_emph(s)), MSG)


def decl(ctx, parts):
    """declarations that are one in both versions: upper case name and a blank"""
    s = build(ctx, parts)
    r = ctx.call(api.remove_emphasis, s, 'github')
    ctx.check(r.ok, 'emphasis removal returns')
    ctx.check(ctx.same(r.value, ref_emph(s)), MSG)


def runs(ctx, k, kinds, seps, ends):
    """k delimiter runs with a character between each two"""
    s = ctx.pick('e0', ends)
    for i in range(k):
        s = s + ctx.pick('d%d' % i, kinds)
        s = s + (ctx.pick('c%d' % i, seps) if i < k - 1 else ctx.pick('e1', ends))
    r = ctx.call(api.remove_emphasis, s, 'github')
    ctx.check(r.ok, 'emphasis removal returns')
    ctx.check(ctx.same(r.value, ref_emph(s)), MSG)


def nest(ctx, k):
    """brackets, images and destinations in any order, between delimiters"""
    s = ''.join([ctx.pick('k%d' % i, ['[', '![', '](u)', ']', '*a']) for i in range(k)])
    s = '*a' + s + ctx.pick('end', ['*', '](u)*', '*](u)'])
    r = ctx.call(api.remove_emphasis, s, 'github')
    ctx.check(r.ok, 'emphasis removal returns')
    ctx.check(ctx.same(r.value, ref_emph(s)), MSG)


STARS = ['*', '**', '***']
BARS = ['_', '__', '___']


def after(ctx, parts, others):
    """another line first"""
    ctx.call(api.remove_emphasis, ctx.pick('other', others), ctx.pick('parser', ['github', 'redcarpet']))
    line(ctx, parts)


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    for n in range(0, 5 if T else 4):
        J.append(tjob('line', [(n, 'LINE')]))
    for n in range(4, 6 if T else 5):
        J.append(tjob('line', [(n, 'EMPHA')]))
    if T:
        J.append(tjob('line', [(5, 'EMPHB')]))
    for n in range(4, 8 if T else 6):
        J.append(tjob('line', [(n, 'DELIM')]))
    for n in range(6, 9) if T else []:
        J.append(tjob('line', [(n, 'TINY')]))
    for n in range(3, 6 if T else 5):
        J.append(tjob('line', [(n, 'LINK')]))
    X = ('*', '_', 'a', ' ')
    D = ('*', 'a', ' ', '\\')
    J.append(tjob('line', [(2, X), '[', (2 if T else 1, X), '](', (1, D), ')', (2, X)]))
    J.append(tjob('line', ['*a[', (1, X), '![', (2 if T else 1, X), '](', (2, 'DEST'), ')', (1, X), ']', '(b)*']))
    J.append(tjob('line', ['*a[b', (1, X), '](', (4 if T else 3, 'DEST'), ')', (1, X)]))
    J.append(tjob('line', ['*[b](a', (3, '"\'()\\ *a'), ')*']))
    J.append(tjob('line', ['[*b](<', (3, '<>\\*a ('), ')*']))
    J.append(tjob('line', ['*[', (4, ('[', ']', '*', '(', ')', 'a', '!')), '](u)*']))
    # the other inline elements
    J.append(tjob('line', ['*<', (4 if T else 2, 'TAG'), '*', (1, 'TAG'), '>', (1, X)]))
    J.append(tjob('line', ['*<a', (3, ('*', ' ', 'a', '=', '"', "'", '>', '/')), '>*']))
    J.append(tjob('line', ['*<!--', (3, ('-', '*', '>', 'a')), '-->', (1, X)]))
    J.append(tjob('line', ['*<?', (2, ('?', '*', '>', 'a')), '?>', (1, X)]))
    J.append(tjob('line', ['*<![CDATA[', (2, (']', '*', '>', 'a')), ']]>', (1, X)]))
    J.append(tjob('line', ['*<', (1, 'LINE'), (1, 'LINE'), ':*>']))
    J.append(tjob('line', ['*<a', (1, 'PRINT'), ':', (1, 'PRINT'), '*', '>', (1, X)]))
    J.append(tjob('line', ['*<a@', (3, ('a', '-', '.', '*', '>', '_')), '>*']))
    J.append(tjob('line', ['*<', (1, 'PRINT'), '*@b>', (1, X)]))
    J.append(tjob('line', ['`', (4 if not T else 6, ('`', '*', 'a', '\\')), '*']))
    J.append(tjob('line', ['`a` ``', (3, ('*', 'b', '`')), '``']))
    J.append(tjob('line', [(2, '`a'), 'b', (2, '`a'), '*c*', (3, '`a')]))
    J.append(tjob('line', ['*', (1, '[!'), '[', (1, X), '[b](c)', (1, X), '*](e)', (1, X)]))
    J.append(tjob('line', ['*[', (1, X), '![b', (1, X), '](c)', (1, X), '*](e)', (1, X)]))
    J.append(tjob('line', ['[*[b](c)', (2, ('*', 'a', ']', '[')), '](e)*']))
    J.append(tjob('line', ['[a](<b>', (1, '" (\'a'), '*c*', (1, '" )\'a'), ')']))
    J.append(tjob('line', ['[a](b', (1, '" (\'a'), '"*c*', (1, '" )\'a'), (1, ' ")'), '*)']))
    J.append(job('nest', k=6 if T else 5))
    J.append(tjob('line', ['*a', (3, ('\\', '*', '`', '_')), 'a', (3 if T else 2, ('\\', '*', '`', '_'))]))
    J.append(tjob('line', ['*', (1, 'LINE'), 'a', (1, 'LINE'), '*']))
    J.append(tjob('line', ['a', (1, 'LINE'), '_b_', (1, 'LINE'), 'c']))
    J.append(tjob('line', ['_(', (1, 'LINE'), '_', (1, 'LINE')]))
    J.append(tjob('line', ['*&', (3, ('a', '#', '1', 'x', ';', '*')), '*']))
    J.append(job('runs', k=3, kinds=STARS + BARS, seps=['a', ' ', '.'], ends=['', 'a'] if T else ['']))
    J.append(job('runs', k=4, kinds=STARS + BARS, seps=['a'], ends=['']))
    J.append(job('runs', k=5, kinds=STARS, seps=['a'], ends=['', 'a'] if T else ['']))
    J.append(job('runs', k=4, kinds=BARS, seps=['.', 'a. ', ' .a'], ends=['', 'a'] if T else ['']))
    if T:
        J.append(job('runs', k=5, kinds=STARS + BARS, seps=['a'], ends=['']))
        J.append(job('runs', k=4, kinds=STARS + BARS + ['****'], seps=['a', ' ', '.'], ends=['']))
    E = ('*', '>', 'a', ' ', '-', '<')
    J.append(tjob('decl', ['*<!A ', (2, E), '>', (1, X), '*']))
    J.append(tjob('decl', ['*<!D', (1, 'BZ'), (1, ' \t'), (1, E), '*', (1, E), '>*<!E ', (1, E), '*>']))
    J.append(tjob('decl', ['*<!A *', (1, E), 'b*<!B *', (1, '>a'), '*']))
    # long runs, many elements, deep nesting
    N = (1, 4, 9, 40)
    J.append(tjob('line', [(1, '*_', N), 'a', (1, '*_ ', N), 'b', (1, '*_', N)]))
    J.append(tjob('line', [('*a* ', (1, 9, 60)), (3, X)]))
    J.append(tjob('line', [('*a', (1, 9, 60)), ('b*', (1, 9, 60)), (1, X)]))
    J.append(tjob('line', [('_a *b ', (1, 9, 30)), (1, X), ('c* d_ ', (1, 9, 30))]))
    J.append(tjob('line', ['*', ('`', (1, 9, 81, 120)), '*a*', ('`', (1, 9, 81, 120)), (1, X)]))
    J.append(tjob('line', [('`*a` ', (1, 9, 40)), '*b', (1, ('`', '*', ' ')), 'c*']))
    J.append(tjob('line', ['*a', (1, ('[', '!', '\\', '(', '<', '&'), MANY), '*', (1, (']', ')', '>', ';', 'a'), MANY), '*']))
    J.append(tjob('line', [('[', (1, 9, 40)), '*a', (']', (1, 9, 40)), '(u)', (1, X), '*']))
    J.append(tjob('line', [('[a](b)*', (1, 9, 40)), (2, X)]))
    J.append(tjob('line', ['[*a](', ('(', (0, 1, 5, 20)), 'b', (')', (0, 1, 5, 20)), ')*']))
    J.append(tjob('line', ['[*a](', (1, 'DEST', (1, 9, 60)), 'b ', (1, '"\'('), (1, 'DEST', (1, 9, 60)), (1, '"\')'), ')*']))
    J.append(tjob('line', ['*<a', (1, 'TAG', (1, 9, 60)), '*', (1, 'TAG'), '>*']))
    J.append(tjob('line', ['*<', ('a', (1, 2, 31, 32, 33)), ':', (1, 'TAG', (1, 40)), '*>*']))
    J.append(tjob('line', ['*<a@', ('b', (1, 62, 63, 64)), (1, '.-'), (1, 'a-*'), '*>*']))
    J.append(tjob('line', ['*&', ('a', (1, 30, 31, 32, 40)), (1, ';*'), '*']))
    J.append(tjob('line', ['*&#', (1, 'xX1'), ('1', (1, 5, 6, 7, 8)), (1, ';*'), '*']))
    # after other calls
    OTHER = ['*a*', '_a', '[a](b "c")*', '`a` ``', '![', '<a', '&amp;*', '**a* b**', '[' * 9, '*' * 40]
    J.append(tjob('after', [(3, ('*', '_', 'a', ' ', '`', '['))], others=OTHER))
    J.append(tjob('after', ['*', (2, ('*', '_', 'a', '`', ']')), '*`_a_'], others=OTHER))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('lines of at most 3 (thorough 4) characters over the whole alphabet, 4 (5) over all characters that start no other '
          'inline, 5 (7) over * _ letter blank punctuation backslash backtick (thorough also 8 without the last two), and templates with '
          'symbolic holes for links, images, code spans, autolinks, raw HTML and up to 5 delimiter runs of 1 to 3 characters; '
          '5 (6) tokens out of nested brackets, links and images; '
          'delimiter runs of up to 40 characters, up to 60 emphasised words, nesting up to 60 deep, long code spans, links, destinations, titles, tags, autolinks and entities; '
          'lines of 3 symbolic characters after one of ten other lines')
OUTSIDE = ('longer lines; reference links (a heading has no definitions in view); `??>` and `]]]>`, where cmark 0.30 itself departs '
           'from its specification; declarations (`<!` and a letter) other than an upper case name and a blank, whose rule differs between versions 0.29 and 0.30; line terminators')
ASSUMPTIONS = ['props/ref.py:ref_emph states the CommonMark 0.30 rules']
