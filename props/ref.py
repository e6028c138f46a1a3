"""Reference functions: the rules of the specifications, written down directly.

They share no code with md_toc.  They are executed symbolically next to the
code under test, and concretely when a counterexample is replayed."""
import unicodedata

from props import alpha

SPACE_ONLY = ('github', 'commonmarker')
CMARK_LIKE = ['github', 'commonmarker', 'gitlab', 'cmark', 'goldmark']
PARSERS = CMARK_LIKE + ['redcarpet']

ASCII_PUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
PUNCT = frozenset(c for c in alpha.UNIVERSE if c in ASCII_PUNCT or unicodedata.category(c)[0] == 'P')
WSPACE = frozenset(c for c in alpha.UNIVERSE if c in '\t\n\f\r' or unicodedata.category(c) == 'Zs')
ALNUM = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
LETTER = ALNUM[:52]
UPPER = ALNUM[:26]
SPC = ' \t\v\f\r\n'


def blanks_of(parser):
    return ' ' if parser in SPACE_ONLY else ' \t'


# ------------------------------------------------------------ headings

def ref_atx(line, parser):
    """(level, text) or None, straight from the CommonMark / GFM rule"""
    blanks = blanks_of(parser)
    n = len(line)
    i = 0
    while i < n and i < 4 and line[i] == ' ':
        i += 1
    if i > 3:
        return None
    start = i
    while i < n and i - start < 7 and line[i] == '#':
        i += 1
    level = i - start
    if level < 1 or level > 6:
        return None
    if i < n and line[i] not in blanks:
        return None
    text = line[i:].strip(blanks)
    body = text.rstrip('#')
    if len(body) == 0:
        text = ''
    elif len(body) < len(text) and body[-1] in blanks:
        text = body.rstrip(blanks)
    return (level, text)


def ref_redcarpet(line, no_links):
    n = len(line)
    i = 0
    while i < n and i < 6 and line[i] == '#':
        i += 1
    if i == 0:
        return None
    if i < n and line[i] != ' ':
        return None
    level = i
    text = line[i:].lstrip(' ')
    had = len(text)
    text = text.rstrip('#').rstrip(' ')
    if len(text) == 0:
        return None
    if not no_links and had == len(text) and text[-1] == '\\':
        text = text + ' '
    return (level, text)


def ref_heading(line, parser, no_links):
    """('none',) | ('ok', level, label) | ('exc', name)"""
    if parser == 'redcarpet':
        r = ref_redcarpet(line, no_links)
        return ('none',) if r is None else ('ok', r[0], r[1])
    r = ref_atx(line, parser)
    if r is None:
        return ('none',)
    if no_links:
        return ('ok', r[0], r[1])
    k, v = ref_label(r[1])
    return ('ok', r[0], v) if k == 'ok' else ('exc', v)


def ref_label(text):
    """('ok', label) | ('exc', name)"""
    if len(text) > 0 and text[-1] == '\\':
        text = text + ' '
    if len(text.strip(' \t\n\v\f\r')) == 0:
        return ('exc', 'GithubEmptyLinkLabel')
    if len(text) > 999:
        return ('exc', 'GithubOverflowCharsLinkLabel')
    out = []
    bs = 0
    for c in text:
        if c == '\\':
            bs += 1
        else:
            if c in '[]' and bs % 2 == 0:
                out.append('\\')
            bs = 0
        out.append(c)
    return ('ok', ''.join(out))


# ------------------------------------------------------------ inline HTML

def name_end(s, i):
    n = len(s)
    if i >= n or s[i] not in LETTER:
        return -1
    i += 1
    while i < n and (s[i] in ALNUM or s[i] == '-'):
        i += 1
    return i


DISALLOWED = ('title', 'textarea', 'style', 'xmp', 'iframe', 'noembed', 'noframes', 'script', 'plaintext')


def disallowed(name):
    low = name.lower()
    for d in DISALLOWED:
        if len(low) == len(d) and low == d:
            return True
    return False


def skip(s, i, chars):
    while i < len(s) and s[i] in chars:
        i += 1
    return i


def open_tag(s, i, ws, gfm):
    """s[i] is '<'; end of the open tag or -1"""
    n = len(s)
    e = name_end(s, i + 1)
    if e < 0:
        return -1
    if gfm and disallowed(s[i + 1:e]):
        return -1
    while True:
        j = skip(s, e, ws)
        if j > e and j < n and (s[j] in LETTER or s[j] == '_' or s[j] == ':'):
            j += 1
            while j < n and (s[j] in ALNUM or s[j] in '_.:-'):
                j += 1
            k = skip(s, j, ws)
            if k < n and s[k] == '=':
                k = skip(s, k + 1, ws)
                if k >= n:
                    return -1
                if s[k] == '"' or s[k] == "'":
                    q = s[k]
                    k += 1
                    while k < n and s[k] != q:
                        k += 1
                    if k >= n:
                        return -1
                    k += 1
                else:
                    k0 = k
                    while k < n and s[k] not in ' \t\r\n\v\f"\'=<>`':
                        k += 1
                    if k == k0:
                        return -1
                j = k
            e = j
        else:
            if j < n and s[j] == '/':
                j += 1
            if j < n and s[j] == '>':
                return j + 1
            return -1


def close_tag(s, i, ws, gfm):
    e = name_end(s, i + 2)
    if e < 0:
        return -1
    if gfm and disallowed(s[i + 2:e]):
        return -1
    e = skip(s, e, ws)
    if e < len(s) and s[e] == '>':
        return e + 1
    return -1


def after(s, i, t):
    """index after the first t at or after i, or -1"""
    n = len(t)
    while i + n <= len(s):
        if s[i] == t[0] and s[i:i + n] == t:
            return i + n
        i += 1
    return -1


def comment(s, i):
    j = i + 4
    if s[j:j + 1] == '>' or s[j:j + 2] == '->':
        return -1
    while j + 3 <= len(s):
        if s[j] == '-' and s[j + 1] == '-':
            return j + 3 if s[j + 2] == '>' else -1
        j += 1
    return -1


def declaration(s, i, gfm):
    j = i + 2
    if gfm:
        k = skip(s, j, UPPER)
        if k == j:
            return -1
        j = skip(s, k, SPC)
        if j == k:
            return -1
    else:
        if j >= len(s) or s[j] not in LETTER:
            return -1
        j += 1
    while j < len(s) and s[j] != '>':
        j += 1
    return j + 1 if j < len(s) else -1


def html_at(s, i, gfm, ws):
    """end of the inline HTML element starting at s[i] == '<', or -1"""
    n = len(s)
    if i + 1 >= n:
        return -1
    c = s[i + 1]
    if c == '/':
        return close_tag(s, i, ws, gfm)
    if c == '?':
        return after(s, i + 2, '?>')
    if c == '!':
        if i + 2 >= n:
            return -1
        d = s[i + 2]
        if d == '-':
            if i + 3 < n and s[i + 3] == '-':
                return comment(s, i)
            return -1
        if d == '[':
            if s[i + 2:i + 9] == '[CDATA[':
                return after(s, i + 9, ']]>')
            return -1
        return declaration(s, i, gfm)
    return open_tag(s, i, ws, gfm)


def ref_html(s, parser):
    gfm = parser in SPACE_ONLY
    ws = SPC if gfm else ' \t'
    out = []
    i = 0
    while i < len(s):
        if s[i] == '<':
            e = html_at(s, i, gfm, ws)
            if e > 0:
                i = e
                continue
        out.append(s[i])
        i += 1
    return ''.join(out)


# ------------------------------------------------------------ emphasis

class Run:
    def __init__(self, c, lo, hi, can_open, can_close):
        self.c, self.lo, self.hi, self.can_open, self.can_close = c, lo, hi, can_open, can_close
        self.orig = hi - lo


def pairs(o, c):
    if not o.can_open or o.c != c.c:
        return False
    if (c.can_open or o.can_close) and (o.orig + c.orig) % 3 == 0 and c.orig % 3 != 0:
        return False
    return True


def match_runs(runs, bottom, gone):
    """the spec's 'process emphasis', without its search shortcuts"""
    i = bottom
    while i < len(runs):
        c = runs[i]
        if not c.can_close:
            i += 1
            continue
        j = i - 1
        while j >= bottom and not pairs(runs[j], c):
            j -= 1
        if j < bottom:
            if c.can_open:
                i += 1
            else:
                del runs[i]
            continue
        o = runs[j]
        k = 2 if (o.hi - o.lo >= 2 and c.hi - c.lo >= 2) else 1
        for x in range(k):
            gone.add(o.hi - 1 - x)
            gone.add(c.lo + x)
        o.hi -= k
        c.lo += k
        del runs[j + 1:i]
        i = j + 1
        if c.lo == c.hi:
            del runs[i]
        if o.lo == o.hi:
            del runs[j]
            i -= 1
    del runs[bottom:]


def autolink(s, i):
    n = len(s)
    j = i + 1
    if j < n and s[j] in LETTER:
        j += 1
        while j < n and (s[j] in ALNUM or s[j] in '.+-'):
            j += 1
        if 2 <= j - i - 1 <= 32 and j < n and s[j] == ':':
            j += 1
            while j < n and s[j] > ' ' and s[j] not in '<>':
                j += 1
            if j < n and s[j] == '>':
                return j + 1
    j = i + 1
    while j < n and (s[j] in ALNUM or s[j] in '.!#$%&\'*+/=?^_`{|}~-'):
        j += 1
    if j == i + 1 or j >= n or s[j] != '@':
        return -1
    while True:
        j += 1
        k = j
        while k < n and (s[k] in ALNUM or s[k] == '-'):
            k += 1
        if k == j or k - j > 63 or s[j] == '-' or s[k - 1] == '-' or k >= n:
            return -1
        if s[k] == '>':
            return k + 1
        if s[k] != '.':
            return -1
        j = k


def link_tail(s, i):
    """s[i] follows the ']' ; end of '(destination "title")' or -1"""
    n = len(s)
    if i >= n or s[i] != '(':
        return -1
    i = skip(s, i + 1, SPC)
    if i >= n:
        return -1
    if s[i] == '<':
        i += 1
        while True:
            if i >= n or s[i] == '<':
                return -1
            if s[i] == '>':
                i += 1
                break
            if s[i] == '\\' and i + 1 < n and s[i + 1] in ASCII_PUNCT:
                i += 1
            i += 1
    else:
        depth = 0
        while i < n:
            if s[i] == '\\' and i + 1 < n and s[i + 1] in ASCII_PUNCT:
                i += 2
                continue
            if s[i] == '(':
                depth += 1
            elif s[i] == ')':
                if depth == 0:
                    break
                depth -= 1
            elif s[i] <= ' ':
                break
            i += 1
        if depth > 0:
            return -1
    j = skip(s, i, SPC)
    if j < n and j > i and s[j] in '"\'(':
        q = ')' if s[j] == '(' else s[j]
        j += 1
        while True:
            if j >= n:
                return -1
            if s[j] == q:
                break
            if q == ')' and s[j] == '(':
                return -1
            if s[j] == '\\' and j + 1 < n and s[j + 1] in ASCII_PUNCT:
                j += 1
            j += 1
        j = skip(s, j + 1, SPC)
    if j < n and s[j] == ')':
        return j + 1
    return -1


def ref_emph(s):
    """s without the delimiters that make emphasis, by CommonMark 0.30"""
    s = s.replace('\x00', '')
    n = len(s)
    gone = set()
    runs = []
    brackets = []       # [image, active, number of runs below]
    i = 0
    while i < n:
        c = s[i]
        if c == '\\':
            i += 2 if (i + 1 < n and s[i + 1] in ASCII_PUNCT) else 1
        elif c == '`':
            j = skip(s, i, '`')
            k = j
            end = -1
            while k < n:
                if s[k] == '`':
                    m = skip(s, k, '`')
                    if m - k == j - i:
                        end = m
                        break
                    k = m
                else:
                    k += 1
            i = end if end > 0 else j
        elif c == '<':
            j = autolink(s, i)
            if j < 0:
                j = html_at(s, i, False, SPC)
            i = j if j > 0 else i + 1
        elif c == '*' or c == '_':
            j = i
            while j < n and s[j] == c:
                j += 1
            wb = i == 0 or s[i - 1] in WSPACE
            pb = i > 0 and s[i - 1] in PUNCT
            wa = j == n or s[j] in WSPACE
            pa = j < n and s[j] in PUNCT
            left = not wa and (not pa or wb or pb)
            right = not wb and (not pb or wa or pa)
            if c == '*':
                op, cl = left, right
            else:
                op = left and (not right or pb)
                cl = right and (not left or pa)
            if op or cl:
                runs.append(Run('*' if c == '*' else '_', i, j, op, cl))
            i = j
        elif c == '!':
            if i + 1 < n and s[i + 1] == '[':
                brackets.append([True, True, len(runs)])
                i += 2
            else:
                i += 1
        elif c == '[':
            brackets.append([False, True, len(runs)])
            i += 1
        elif c == ']':
            i += 1
            if brackets:
                b = brackets.pop()
                if b[1]:
                    e = link_tail(s, i)
                    if e > 0:
                        i = e
                        match_runs(runs, b[2], gone)
                        if not b[0]:
                            for x in brackets:
                                if not x[0]:
                                    x[1] = False
        else:
            i += 1
    match_runs(runs, 0, gone)
    return ''.join([s[x] for x in range(n) if x not in gone])


# ------------------------------------------------------------ anchors

def ref_slug(text, parser):
    s = ref_emph(ref_html(text, parser)).lower()
    out = []
    for c in s:
        if c == ' ':
            c = '-'
        elif not (c == '-' or c == '_' or c.isalnum()):
            continue
        if c == '-' and parser == 'gitlab' and out and out[-1] == '-':
            continue
        out.append(c)
    return ''.join(out)


STRIPPED = " -&+$,/:;=?@\"#{}|^~[]`\\*()%.!'"


def ref_redcarpet_anchor(text):
    out = []
    sep = False
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == '<' or c == '&':
            stop = '>' if c == '<' else ';'
            while i < n and text[i] != stop:
                i += 1
        elif c > '\x7f' or c in STRIPPED:
            sep = True
        else:
            if sep and out:
                out.append('-')
            sep = False
            out.append(c.lower())
        i += 1
    if out:
        return ''.join(out)
    return None


def djb2(text):
    h = 5381
    for b in text.encode('utf-8'):
        h = (h * 33 + b) % (1 << 64)
    return 'part-' + format(h, 'x')


def ref_anchor(text, parser):
    """anchor of the first heading with this text"""
    if parser == 'redcarpet':
        a = ref_redcarpet_anchor(text)
        return djb2(text) if a is None else a
    return ref_slug(text, parser)


# ------------------------------------------------------------ code fences

def fence_open(line):
    """(character, length) of the opening fence, or None"""
    i = skip(line, 0, ' ')
    if i > 3 or i >= len(line):
        return None
    if line[i] == '`':
        c = '`'
    elif line[i] == '~':
        c = '~'
    else:
        return None
    j = skip(line, i, c)
    if j - i < 3:
        return None
    if c == '`' and '`' in line[j:]:
        return None
    return (c, j - i)


def fence_close(line, fence, parser):
    i = skip(line, 0, ' ')
    if i > 3:
        return False
    j = skip(line, i, fence[0])
    if j - i < fence[1]:
        return False
    return skip(line, j, blanks_of(parser)) == len(line)


def ref_outside_fences(lines, parser):
    """the indices of the lines that are not part of a fenced code block"""
    out = []
    fence = None
    for k in range(len(lines)):
        if parser == 'redcarpet':
            out.append(k)
        elif fence is None:
            fence = fence_open(lines[k])
            if fence is None:
                out.append(k)
        elif fence_close(lines[k], fence, parser):
            fence = None
    return out


# ------------------------------------------------------------ the whole TOC

class Unspecified(Exception):
    """the properties say nothing about this input"""


BULLETS = {'redcarpet': ('-', '+', '*')}
CLOSERS = {'redcarpet': ('.',)}


def ref_markers(parser, ordered, constant, marker):
    """(ordered, marker that ends up in the TOC)"""
    if constant:
        ordered = True
    if ordered and marker not in CLOSERS.get(parser, ('.', ')')):
        marker = '.'
    return ordered, marker


def ref_entries(lines, parser='github', no_links=False):
    """(entries, error): entry = (level, label, anchor) of each heading outside
    code fences up to the first that is refused, error = its exception or None"""
    out = []
    seen = []
    for k in ref_outside_fences(lines, parser):
        h = ref_heading(lines[k], parser, no_links)
        if h[0] == 'none':
            continue
        if h[0] == 'exc':
            return out, h[1]
        a = ref_anchor(h[2], parser)
        if parser != 'redcarpet':
            n = 0
            for x in seen:
                if len(x) == len(a) and x == a:
                    n += 1
            seen.append(a)
            if n:
                a = a + '-' + str(n)
        out.append((h[1], h[2], a))
    return out, None


def ref_numbers(levels, constant):
    out = []
    last = {}
    prev = 0
    for lv in levels:
        if constant:
            out.append(1)
            continue
        n = 1 if (prev and lv > prev) else last.get(lv, 0) + 1
        last[lv] = n
        prev = lv
        out.append(n)
    return out


def ref_indents(levels, widths, parser):
    """widths[i]: width of the marker of item i"""
    out = []
    branch = []         # (level, indentation, width of the last marker)
    for i in range(len(levels)):
        lv = levels[i]
        if parser == 'redcarpet':
            out.append(4 * (lv - 1))
            continue
        back = False
        while branch and branch[-1][0] > lv:
            branch.pop()
            back = True
        if branch and branch[-1][0] == lv:
            ind = branch.pop()[1]
        elif back:
            raise Unspecified
        elif branch:
            ind = branch[-1][1] + branch[-1][2] + 1
        else:
            ind = 0
        branch.append((lv, ind, widths[i]))
        out.append(ind)
    return out


def coherent(levels):
    for i in range(1, len(levels)):
        if levels[i] < levels[0] or levels[i] > levels[i - 1] + 1:
            return False
    return True


def ref_toc(lines, parser='github', ordered=False, constant=False, marker='-', no_links=False, no_indentation=False,
            no_coherence=False, keep=3, newline='\n'):
    """('ok', TOC) | ('exc', names); raises Unspecified"""
    ordered, marker = ref_markers(parser, ordered, constant, marker)
    ents, err = ref_entries(lines, parser, no_links)
    ents = [x for x in ents if x[0] <= keep]
    levels = [x[0] for x in ents]
    errs = []
    if err is not None:
        errs.append(err)
    if not no_indentation and not no_coherence and not coherent(levels):
        errs.append('TocDoesNotRenderAsCoherentList')
    if errs:
        return ('exc', errs)
    numbers = ref_numbers(levels, constant)
    marks = [str(n) + marker if ordered else marker for n in numbers]
    if no_indentation:
        ind = [0] * len(ents)
    else:
        ind = ref_indents(levels, [len(m) for m in marks], parser)
    out = []
    for i in range(len(ents)):
        text = ents[i][1] if no_links else '[' + ents[i][1] + '](#' + ents[i][2] + ')'
        out.append(' ' * ind[i] + marks[i] + ' ' + text + newline)
    return ('ok', ''.join(out))


# ------------------------------------------------------------ in-place writing

def ref_split(text):
    """lines without their terminators, and whether the last one is terminated"""
    t = text.replace('\r\n', '\n').replace('\r', '\n')
    if len(t) == 0:
        return [], True
    parts = t.split('\n')
    if len(parts[-1]) == 0:
        return parts[:-1], True
    return parts, False


BLANK = (' ', '\t', '\v')


def ref_list_shaped(s):
    """at most three spaces, a list marker, one space and then no blank"""
    i = 0
    while i < len(s) and i < 3 and s[i] == ' ':
        i += 1
    if i < len(s) and s[i] in ('-', '+', '*'):
        i += 1
    else:
        k = i
        while k < len(s) and s[k].isdecimal():
            k += 1
        if k == i or k >= len(s) or s[k] not in ('.', ')'):
            return False
        i = k + 1
    if i >= len(s) or s[i] != ' ':
        return False
    i += 1
    return i >= len(s) or s[i] not in BLANK


def ref_all_blank(s):
    for c in s:
        if c not in BLANK:
            return False
    return True


def ref_region(lines, marker):
    """(marker line numbers, recognised pair or None), 0 based"""
    m = marker.strip()
    pos = [i for i in range(len(lines)) if lines[i].strip() == m]
    for j in range(len(pos) - 1):
        a, b = pos[j], pos[j + 1]
        if ref_all_blank(''.join(lines[a + 1:b])) or ref_list_shaped(''.join(lines[a + 2:b - 1])):
            return pos, (a, b)
    return pos, None


def ref_existing(lines, marker):
    """text of the TOC the file holds, None if there is just one marker"""
    pos, pair = ref_region(lines, marker)
    if pair:
        return '\n'.join(lines[pair[0] + 1:pair[1]]).strip()
    return None if len(pos) == 1 else ''


def ref_inplace(text, toc, marker, nl):
    """content of the file after writing the TOC"""
    lines, terminated = ref_split(text)
    pos, pair = ref_region(lines, marker)
    if len(pos) == 0:
        return text
    toc = toc.replace('\r\n', '\n').replace('\r', '\n').rstrip()
    frame = [marker, ''] + toc.split('\n') + ['', marker]
    if len(pos) == 1:
        before, after = lines[:pos[0]], lines[pos[0] + 1:]
    elif pair:
        before, after = lines[:pair[0]], lines[pair[1] + 1:]
    else:
        before, after = lines[:pos[0]], lines[pos[0]:]
    out = nl.join(before + frame + after)
    return out + (nl if terminated or len(after) == 0 else '')
