from props.common import djob, doc, rep, SOME, MANY, doc_after
from props.ref import CMARK_LIKE

MSG = 'the TOC lists exactly the headings outside code fences'
B = ('`', ' ', 'a')
F = ('`', '~', ' ', '\t', 'a')
TWO = ['github', 'cmark']


def docs(ctx, tpl, parsers, via='file'):
    doc(ctx, tpl, MSG, via=via, parser=list(parsers), no_links=True, no_indentation=True, keep=6)


def after(ctx, tpl, **opts):
    doc_after(ctx, tpl, MSG, **dict(dict(no_links=True, no_indentation=True, keep=6), **opts))


def JOBS(tier):
    T = tier == 'thorough'
    J = []
    H1, H2, H3 = '# x', '# y', '# z'

    def j(tpl, parsers=TWO, via='file'):
        J.append(djob(tpl, 'docs', parsers=parsers, via=via))
    # a single fence line: what opens, in a document that ends inside the block
    for n in range(1, 6 if T else 5):
        j([[(n, 'LINE')], H1], CMARK_LIKE if n < 5 else TWO)
    j([[(8 if T else 7, F)], H1])
    j([['```', (2, 'LINE')], H1], CMARK_LIKE)
    j([['~~~', (2, 'LINE')], H1], CMARK_LIKE)
    j([['   ', (1, F), '~~~', (1, F)], H1])
    # what closes
    for f in ('```', '~~~~', '  ```'):
        for n in ((3, 4, 5, 6) if T else (4, 5)):
            j([f, H1, [(n, F)], H2])
        j([f, [(3, 'LINE')], H2])
        j([f, [f.strip(), (2, 'LINE')], H2], CMARK_LIKE)
    j([[(1, ' a'), '```', (2, F)], H1, [(2, F), '```', (2, F)], H2])
    j([[(3, B), '``'], H1, [(3, B), '``'], H2])
    # several fences: the state is right after each one
    j([[(2, '`~'), '``', (1, '`~ a')], H1, ['```', (1, F)], H2, ['~~~', (1, F)], H3])
    j(['```', [(1, '`~'), '``', (1, F)], H1, ['``', (2, F)], H2, ['~~~', (1, F)], H3])
    j(['~~~', '```', [(1, '`~'), '~~'], '# x', '```', '# y', [(1, '`~'), '``'], '# z'])
    j([H1, ['```', (1, 'LINE')], H2])
    j(['```', ['# ', (2, 'LINE')], '```', H2])
    # the last line, with and without a terminator; standard input
    j(['```', 'a', [(4, F)]], via='stdin')
    j([[(4, F)], H1, [(4, F)], H2], via='stdin')
    j(['````', H1, ['````', (2, F)], H2], CMARK_LIKE, via='stdin')
    j(['```', [(3, ('#', ' ', '`', 'a'))]])
    if T:
        j([[(5, F)], H1, [(5, F)], H2])
        j([[(4, 'LINE')], H1, [(4, 'LINE')], H2])
    # long fences, info strings and blocks, and many of them
    LONG = (3, 4, 9, 40)
    j([[(1, '`~', LONG), (1, '`~ a')], H1, [(1, '`~', LONG), (1, F)], H2])
    j([[' ', (1, F, SOME), '~~~'], H1])
    j([[(1, '`~', (3,)), (1, 'LINE', (1, 9, 64)), (1, '`~ a')], H1])
    j(['```', [(1, F, SOME), '```', (1, F, MANY)], H1])
    j([rep('```', tuple(range(1, 14)) + (40, 41)), H1, ['~~~', (1, F)], H2])
    j(['~~~', rep([(1, F), '~~', (1, F)], (1, 20)), H1, rep('x', (1, 30)), '~~~', H2])
    j([rep('x', (1, 50)), ['``', (1, F)], rep(H1, (1, 12)), '```', H2], via='stdin')
    # headings before the fences
    j([rep('# w', (1, 2, 5)), [(1, '`~'), '~~', (1, F)], H1, ['~~', (2, F)], H2, ['``', (1, F)], H3])
    j([rep('# w', (3, 12)), '~~~', H1, ['~~~', (1, F)], H2, '```', H3, [(1, '`~'), '``'], H1], CMARK_LIKE)
    # after other calls
    J.append(djob(['```', H1, ['```', (1, ' \t`a')], H2], 'after', parser=['github', 'cmark']))
    J.append(djob([[(1, ' ~'), '~~', (1, '~`\t')], H1, '~~~', H2, '```'], 'after', parser=['github', 'gitlab']))
    return J


BUDGET = dict(quick=300, thorough=1500)
BOUNDS = ('documents of two to six lines where up to three fence lines are symbolic: at most 4 (thorough 5) characters over ASCII and the Unicode '
          'representatives, up to 7 (thorough 8) over backtick tilde blank tab letter; all five parsers; files and standard input; '
          'fences, info strings and trailing blanks of up to 300 characters, up to 41 fences and blocks of up to 31 lines; '
          'documents after an earlier call with other options, another text or an error')
OUTSIDE = 'longer lines and documents; fences inside block quotes and list items, which md_toc does not model'
ASSUMPTIONS = ['props/ref.py:fence_open/fence_close state the fenced code block rule']
