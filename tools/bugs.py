"""Planted bugs: edits against /repo's HEAD, with a demonstration each."""
API = 'md_toc/api.py'
GEN = 'md_toc/generic.py'
CLI = 'md_toc/cli.py'
CON = 'md_toc/constants.py'
MAIN = 'md_toc/__main__.py'
INL = 'md_toc/cmark/inlines_c.py'
UTF = 'md_toc/cmark/utf8_c.py'

HEADER = '''import contextlib
import io
import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from md_toc import api, cli, constants, exceptions, generic  # noqa


def toc(text, stdin=False, **kw):
    """The TOC of a text, from a scratch file or from standard input."""
    if stdin:
        old = sys.stdin
        sys.stdin = io.TextIOWrapper(io.BytesIO(text.encode() if isinstance(text, str) else text), encoding='utf-8')
        try:
            return api.build_toc('-', **kw)
        finally:
            sys.stdin = old
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'f.md')
        with open(p, 'wb') as f:
            f.write(text.encode() if isinstance(text, str) else text)
        return api.build_toc(p, **kw)


def write(text, new, marker='<!--TOC-->', **kw):
    """Write in place: return the verdict and the resulting bytes."""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'f.md')
        with open(p, 'wb') as f:
            f.write(text.encode())
        eq = api.write_string_on_file_between_markers(p, new, marker, **kw)
        with open(p, 'rb') as f:
            return eq, f.read().decode()


def same(got, want):
    if got != want:
        sys.exit('got %r, wanted %r' % (got, want))


'''

BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    if isinstance(edits, tuple):
        edits = [edits]
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


# ---------------------------------------------------------------- C01
bug('c01-indent-levels', 'C01',
    (API, "subl[i] == '#' and i <= md_parser[\n                    'github']['header']['max_levels'] + offset:",
     "subl[i] == '#' and i <= md_parser[\n                    'github']['header']['max_levels']:"),
    "same(toc('  ###### a\\n', keep_header_levels=6), '- [a](#a)\\n')",
    'two or three leading spaces together with five or six hashes',
    'indented deep headings are not recognised as headings')
bug('c01-gitlab-tab', 'C01',
    (API, "            if parser in ['github', 'commonmarker']:\n                # GFM 0.29 and cmark 0.29.",
     "            if parser in ['github', 'commonmarker', 'gitlab']:\n                # GFM 0.29 and cmark 0.29."),
    "same(toc('#\\ta\\n', parser='gitlab'), '- [a](#a)\\n')",
    'the gitlab parser and a tab after the opening hashes',
    'headings whose hashes are followed by a tab disappear with gitlab')
bug('c01-leading-strip', 'C01',
    (API, "            while i < len(subl) and subl[i] in spaces:\n                i += 1\n\n            # An algorithm",
     "            while i < len(subl) and subl[i] == subl[i - 1]:\n                i += 1\n\n            # An algorithm"),
    "same(toc('# \\ta\\n', parser='cmark', no_links=True), '- a\\n')\nsame(toc('# ##a\\n', no_links=True), '- ##a\\n')",
    'a mix of spaces and tabs after the opening hashes',
    'leading blanks stay in the heading text')

# ---------------------------------------------------------------- C02
bug('c02-document-end', 'C02',
    (API, "                if f.readline() == '':\n                    is_document_end = True",
     "                if f.readline().strip() == '':\n                    is_document_end = True"),
    "same(toc('```\\nx\\n\\n# a\\n```\\n'), '')",
    'a blank line inside a fenced code block, followed by a line that looks like a heading, read from a file',
    'a blank line inside a fence ends the code block')
# ---------------------------------------------------------------- C03
bug('c03-escape-then-skip', 'C03',
    (API, "                        i += 1 + len(tmp)\n", "                        i += 2\n"),
    "same(toc('# \\\\[]\\n'), '- [\\\\[\\\\]](#)\\n')",
    'an escaped bracket immediately followed by an unescaped one',
    'the bracket after an already escaped bracket is not escaped')
bug('c03-limit-stripped', 'C03',
    (API, "                if len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:",
     "                if len(final_line.strip(),\n                       ) > md_parser['github']['link']['max_chars_label']:"),
    "try:\n    toc('# ' + 'a' * 998 + '\\\\\\n')\nexcept exceptions.GithubOverflowCharsLinkLabel:\n    pass\nelse:\n    sys.exit('not rejected')",
    'a text of 999 characters that ends with a backslash',
    'a label of 1000 characters is accepted')

# ---------------------------------------------------------------- C04
bug('c04-ascii-word', 'C04',
    (API, "        output_string = re.sub(pattern, replacement, input_string)",
     "        output_string = re.sub(pattern, replacement, input_string,\n                               flags=re.ASCII)"),
    "same(api.build_anchor_link('\\u00e9t\\u00e9', {}, 'github'), '\\u00e9t\\u00e9')",
    'a heading with non-ASCII letters', 'non-ASCII word characters vanish from anchors')

# ---------------------------------------------------------------- C05
bug('c05-checksum-ascii', 'C05',
    (API, "            header_text_trimmed.encode('UTF-8')).hexdigest()\n        # Check",
     "            header_text_trimmed.encode('ascii', 'ignore')).hexdigest()\n        # Check"),
    "same(toc('# \\u00e9\\n# \\u00e8\\n'), '- [\\u00e9](#\\u00e9)\\n- [\\u00e8](#\\u00e8)\\n')",
    'two headings that differ only in non-ASCII characters',
    'different headings share a duplicate counter')
bug('c05-checksum-short', 'C05',
    (API, "            header_text_trimmed.encode('UTF-8')).hexdigest()\n        # Check",
     "            header_text_trimmed.encode('UTF-8')).hexdigest()[:4]\n        # Check"),
    "import hashlib\nseen = {}\ni = 0\nwhile True:\n    h = hashlib.sha1(('a%d' % i).encode()).hexdigest()[:4]\n    if h in seen:\n        break\n    seen[h] = 'a%d' % i\n    i += 1\na, b = seen[h], 'a%d' % i\nsame(toc('# %s\\n# %s\\n' % (a, b)), '- [%s](#%s)\\n- [%s](#%s)\\n' % (a, a, b, b))",
    'two headings whose checksums share the first 16 bits',
    'different headings share a duplicate counter')
bug('c05-hidden-not-counted', 'C05',
    (API, "            build_anchor_link(\n                r['header_text_trimmed'],\n                header_duplicate_counter,\n                parser,\n            ),",
     "            build_anchor_link(\n                r['header_text_trimmed'],\n                header_duplicate_counter if r['visible'] else {},\n                parser,\n            ),"),
    "same(toc('#### a\\n# a\\n', keep_header_levels=3), '- [a](#a-1)\\n')",
    'a heading hidden by the level limit with the same text as a visible one',
    'hidden headings are not counted as duplicates')
bug('c05-gitlab-count-before-collapse', 'C05',
    [(API, "        if parser in ['gitlab']:\n            # See https://docs.gitlab.com/ee/user/markdown.html#header-ids-and-links\n            # Two or more hyphens in a row are converted to one.\n            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)\n\n", ""),
     (API, "            header_text_trimmed.encode('UTF-8')).hexdigest()\n        # Check",
      "            header_text_trimmed.encode('UTF-8')).hexdigest()\n        if parser in ['gitlab']:\n            # See https://docs.gitlab.com/ee/user/markdown.html#header-ids-and-links\n            # Two or more hyphens in a row are converted to one.\n            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)\n        # Check")],
    "same(toc('# a  b\\n# a b\\n', parser='gitlab'), '- [a  b](#a-b)\\n- [a b](#a-b-1)\\n')",
    'gitlab and two headings whose slugs only become equal after hyphens are collapsed',
    'duplicate anchors')

# ---------------------------------------------------------------- C06
bug('c06-backtick-memo', 'C06',
    [(INL, "    while not found:\n        # read non backticks", "    subj.scanned_for_backticks = True\n    while not found:\n        # read non backticks"),
     (INL, "    # got through whole input without finding closer\n    subj.scanned_for_backticks = True\n", "    # got through whole input without finding closer\n")],
    "same(api.remove_emphasis('`a` ``*b*``'), '`a` ``*b*``')",
    'two code spans with different delimiter lengths in one line',
    'the second code span is not recognised and its asterisks are stripped')
bug('c06-title-space', 'C06',
    (INL, "        # ensure there are spaces between url and title\n        if starttitle == endurl:\n            endtitle = starttitle\n        else:\n            endtitle = starttitle + _cmark_scan_link_title(\n                subj.input, starttitle)",
     "        endtitle = starttitle + _cmark_scan_link_title(subj.input, starttitle)"),
    "same(api.remove_emphasis('[a](<b>\"*c*\")'), '[a](<b>\"c\")')",
    'a pointy destination immediately followed by a quoted title with a delimiter',
    'text that is no link is taken for one')
# ---------------------------------------------------------------- C07
bug('c07-attr-name', 'C07',
    (CON, "__cmark_attributename = '([a-zA-Z_:][a-zA-Z0-9:._-]*)'", "__cmark_attributename = '([a-zA-Z_:][a-zA-Z0-9:_-]*)'"),
    "same(api.remove_html_tags('<a b.c>', 'cmark'), '')",
    'an attribute name with a dot', 'tags with such an attribute are kept')
bug('c07-disallowed-boundary', 'C07',
    (CON, "\\b[nN][oO][eE][mM][bB][eE][dD]\\b", "\\b[nN][oO][eE][mM][bB][eE][dD]"),
    "same(api.remove_html_tags('<noembedx>', 'github'), '')",
    'a tag whose name extends a disallowed name', 'a legal tag is kept')
bug('c07-disallowed-case', 'C07',
    (CON, "\\b[xX][mM][pP]\\b", "\\b[xX]mp\\b"),
    "same(api.remove_html_tags('<XMP>', 'github'), '<XMP>')",
    'a disallowed tag in upper case', 'a disallowed tag is removed')
bug('c07-pi-body', 'C07',
    (CON, "            'PIB': r'(?:(?!\\?>).)*',", "            'PIB': r'(?:(?![?>]).)*',"),
    "same(api.remove_html_tags('<?a>b?>', 'cmark'), '')",
    'a processing instruction that contains a > or a ?', 'it is kept')
# ---------------------------------------------------------------- C08
bug('c08-stripped-set', 'C08',
    (API, "        STRIPPED = \" -&+$,/:;=?@\\\"#{}|^~[]`\\\\*()%.!'\"", "        STRIPPED = \" -&+$,/:;=?@\\\"#{}|~[]`\\\\*()%.!'\""),
    "same(api.build_anchor_link('a^b', {}, 'redcarpet'), 'a-b')",
    'a caret in the heading', 'the caret stays in the anchor')
bug('c08-entity', 'C08',
    (API, "                while i < header_text_trimmed_len and header_text_trimmed[\n                        i] != ';':",
     "                while i < header_text_trimmed_len and header_text_trimmed[\n                        i] not in [';', ' ']:"),
    "same(api.build_anchor_link('a &b c; d', {}, 'redcarpet'), 'a-d')",
    'an ampersand whose entity contains a space', 'part of what is dropped by redcarpet stays in the anchor')
bug('c08-trailing-hyphen', 'C08',
    (API, "        if stripped > 0 and inserted > 0:\n            header_text_trimmed_middle_stage_str = header_text_trimmed_middle_stage_str[\n                0:-1]",
     "        if stripped > 0 and inserted > 1:\n            header_text_trimmed_middle_stage_str = header_text_trimmed_middle_stage_str[\n                0:-1]"),
    "same(api.build_anchor_link('a!', {}, 'redcarpet'), 'a')",
    'exactly one kept character followed by stripped punctuation', 'the anchor ends with a hyphen')

# ---------------------------------------------------------------- C09
bug('c09-hidden-prev', 'C09',
    [(API, "            if header is not None and header['visible']:\n                header_type_curr = header['header_type']\n",
      "            if header is not None:\n                header_type_curr = header['header_type']\n\n            if header is not None and header['visible']:\n"),
     (API, "                header_type_prev = header_type_curr\n\n            # endif\n\n        # endif\n",
      "            # endif\n\n            header_type_prev = header_type_curr\n\n        # endif\n")],
    "same(toc('# a\\n### h\\n## b\\n', keep_header_levels=2), '- [a](#a)\\n  - [b](#b)\\n')",
    'a hidden heading between a visible heading and a deeper visible one',
    'the visible child is not indented')

# ---------------------------------------------------------------- C10
bug('c10-skip-level-restart', 'C10',
    (API, "            or header_type_prev < header_type_curr):\n        header_type_count",
     "            or header_type_prev + 1 == header_type_curr):\n        header_type_count"),
    "same(toc('# a\\n### b\\n# c\\n### d\\n', ordered=True, no_list_coherence=True), '1. [a](#a)\\n   1. [b](#b)\\n2. [c](#c)\\n   1. [d](#d)\\n')",
    'coherence check disabled and a level skipped twice', 'numbering goes on in a new sibling group')
bug('c10-marker-redcarpet', 'C10',
    (API, "            not in md_parser[parser]['list']['ordered']['closing_markers']):",
     "            not in md_parser['github']['list']['ordered']['closing_markers']):"),
    "same(toc('# a\\n', ordered=True, parser='redcarpet', list_marker=')'), '1. [a](#a)\\n')",
    'redcarpet with the closing parenthesis', 'an error instead of the default marker')

# ---------------------------------------------------------------- C11
bug('c11-relative-to-first', 'C11',
    (API, "                                or header_type_curr > header_type_prev + 1):",
     "                                or header_type_curr - header_type_first > header_type_prev):"),
    "try:\n    toc('## a\\n#### b\\n', keep_header_levels=6)\nexcept exceptions.TocDoesNotRenderAsCoherentList:\n    pass\nelse:\n    sys.exit('accepted')",
    'a document whose first heading is not of level one', 'a skipped level is accepted')
# ---------------------------------------------------------------- C12
bug('c12-indent-counts', 'C12',
    (API, "            if i - offset > keep_header_levels:", "            if i > keep_header_levels:"),
    "same(toc('  ## a\\n', keep_header_levels=3), '- [a](#a)\\n')",
    'a heading indented by spaces whose level is close to the limit', 'headings within the limit are hidden')
# ---------------------------------------------------------------- C13
# ---------------------------------------------------------------- C14
bug('c14-newline-mode', 'C14',
    (API, "        f = open(filename, newline=None)", "        f = open(filename, newline='')"),
    "same(toc('```\\r\\nx\\r\\n```\\r\\n# a\\r\\n'), '- [a](#a)\\n')",
    'a CRLF file with a fenced code block', 'the closing fence is not recognised')
bug('c14-rw-open', 'C14',
    (API, "        f = open(filename, newline=None)", "        f = open(filename, 'a+', newline=None)\n        f.seek(0)"),
    "import stat\nwith tempfile.TemporaryDirectory() as d:\n    try:\n        same(api.build_toc(os.path.join(d, 'missing.md')), None)\n    except FileNotFoundError:\n        pass\n    same(os.listdir(d), [])",
    'a missing input file', 'building a TOC creates files')

# ---------------------------------------------------------------- C15
bug('c15-commonmarker-fence', 'C15',
    (API, "        if parser in ['github', 'commonmarker']:\n            spaces = ' '\n        else:\n            spaces = ' \\u0009'\n        line = line.rstrip",
     "        if parser in ['github']:\n            spaces = ' '\n        else:\n            spaces = ' \\u0009'\n        line = line.rstrip"),
    "t = '```\\n```\\t\\n# a\\n'\nsame(toc(t, parser='commonmarker'), toc(t, parser='github'))",
    'commonmarker and a closing fence followed by a tab', 'commonmarker differs from github')
bug('c15-commonmarker-tab', 'C15',
    (API, "            if parser in ['github', 'commonmarker']:\n                # GFM 0.29", "            if parser == 'github':\n                # GFM 0.29"),
    "t = '#\\ta\\n'\nsame(toc(t, parser='commonmarker'), toc(t, parser='github'))",
    'commonmarker and a tab after the hashes', 'commonmarker differs from github')
bug('c15-goldmark-early', 'C15',
    [(CON, "parser['goldmark'] = copy.deepcopy(parser['cmark'])\n", ""),
     (CON, "parser['github'] = copy.deepcopy(parser['cmark'])\n", "parser['github'] = copy.deepcopy(parser['cmark'])\nparser['goldmark'] = parser['github']\n")],
    "t = '# <!doctype a>b\\n'\nsame(toc(t, parser='goldmark'), toc(t, parser='cmark'))\nsame(api.remove_html_tags('<style>', 'goldmark'), api.remove_html_tags('<style>', 'cmark'))",
    'goldmark and HTML on which GFM and CommonMark differ', 'goldmark shares the table of github')

# ---------------------------------------------------------------- C16
bug('c16-insert-position', 'C16',
    [(GEN, "            first_marker_line_number = marker_line_positions[first_marker]\n            done = True\n\n        first_marker += 1",
      "            done = True\n\n        first_marker_line_number = marker_line_positions[first_marker]\n        first_marker += 1")],
    "t = 'a\\n<!--TOC-->\\nb\\n<!--TOC-->\\nc\\n<!--TOC-->\\nd\\n'\nsame(write(t, '- x\\n')[1], 'a\\n<!--TOC-->\\n\\n- x\\n\\n<!--TOC-->\\n<!--TOC-->\\nb\\n<!--TOC-->\\nc\\n<!--TOC-->\\nd\\n')",
    'three or more markers and no recognised pair', 'the TOC is inserted before the wrong marker')
bug('c16-interval-end', 'C16',
    (GEN, "            lines, marker_line_positions[first_marker] + 2,\n            marker_line_positions[second_marker] - 2)",
     "            lines, marker_line_positions[first_marker] + 2,\n            marker_line_positions[second_marker] - 1)"),
    "t = '<!--TOC-->\\na\\n- b\\n<!--TOC-->\\n'\nsame(write(t, '- x\\n')[1], '<!--TOC-->\\n\\n- x\\n\\n<!--TOC-->\\n' + t)",
    'text between two markers whose last line is a list item', 'user text between markers is deleted')
bug('c16-delete-first-line', 'C16',
    (GEN, "            lines_to_delete.append([\n                marker_line_positions[first_marker],",
     "            lines_to_delete.append([\n                first_marker_line_number,"),
    "t = '<!--TOC-->\\na\\n<!--TOC-->\\n\\n- b\\n\\n<!--TOC-->\\n'\nsame(write(t, '- x\\n')[1], '<!--TOC-->\\na\\n<!--TOC-->\\n\\n- x\\n\\n<!--TOC-->\\n')",
    'three markers where only the second and the third enclose a list', 'text between the first two markers is deleted')

# ---------------------------------------------------------------- C17
bug('c17-old-toc-lines', 'C17',
    (GEN, "                old_toc = _extract_lines(filename, start_line,\n                                         end_line).strip()",
     "                old_toc = interval_with_newline.strip()"),
    "t = '<!--TOC-->\\n\\n- a\\n- b\\n\\n<!--TOC-->\\n'\nsame(write(t, '- a\\n- b\\n')[0], True)",
    'a TOC of more than one line', 'equal TOCs are reported as different')
# ---------------------------------------------------------------- C18
CLIDEMO = '''
import subprocess


def run(args, files, stdin=''):
    with tempfile.TemporaryDirectory() as d:
        for n, t in files.items():
            with open(os.path.join(d, n), 'w', newline='') as f:
                f.write(t)
        r = subprocess.run([sys.executable, '-m', 'md_toc'] + args, cwd=d, input=stdin, text=True,
                           capture_output=True, env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1'))
        return r.returncode, r.stdout, {n: open(os.path.join(d, n), newline='').read() for n in files}


'''
bug('c18-last-file-diff', 'C18',
    (CLI, "                    equal &= tocs_equal(toc, args.filename[i], args.toc_marker)",
     "                    equal = tocs_equal(toc, args.filename[i], args.toc_marker)"),
    CLIDEMO + "same(run(['-d', 'github', 'a', 'b'], {'a': '# x\\n', 'b': '# y\\n<!--TOC-->\\n\\n- [y](#y)\\n\\n<!--TOC-->\\n'})[0], 128)",
    'several files where only an earlier one differs', 'exit 0 although a TOC differs')
bug('c18-redcarpet-levels', 'C18',
    (CLI, "                1,\n                md_parser['redcarpet']['header']['max_levels'] + 1,", "                1,\n                md_parser['redcarpet']['header']['max_levels'],"),
    CLIDEMO + "same(run(['redcarpet', '-l', '6', 'a'], {'a': '# x\\n'})[:2], (0, '- [x](#x)\\n'))",
    'redcarpet with -l 6', 'a valid command line is refused')
bug('c18-cr-newline', 'C18',
    (CLI, "            newline_string = '\\r'\n", "            newline_string = '\\n'\n"),
    CLIDEMO + "r = run(['-p', '-n', '\\\\r', 'github', 'a'], {'a': '# x\\n<!--TOC-->\\n'})\nsame((r[0], r[2]['a']), (0, '# x\\r<!--TOC-->\\r\\r- [x](#x)\\r\\r<!--TOC-->\\r'))",
    'the CR newline string', 'lines end in LF instead')
bug('c18-exit-and', 'C18',
    (MAIN, "        if result:\n            retcode = 128", "        if result and args.in_place is False:\n            retcode = 128"),
    CLIDEMO + "same(run(['-d', '-p', 'github', 'a'], {'a': '# x\\n<!--TOC-->\\n'})[0], 128)",
    '--diff together with --in-place', 'exit 0 although the TOC differs')

# ---------------------------------------------------------------- C19
bug('c19-lone-bang', 'C19',
    (INL, "    if subj.pos + 2 <= subj.input.length:", "    if subj.pos + 1 <= subj.input.length:"),
    "same(api.remove_emphasis('a<!'), 'a<!')",
    'a line that ends with <!', 'IndexError')
bug('c19-entity-length', 'C19',
    ('md_toc/cmark/houdini_html_u_c.py', "    if size >= 3 and src[0] == '#':", "    if size >= 1 and src[0] == '#':"),
    "same(api.remove_emphasis('a &#'), 'a &#')",
    'a line that ends with &#', 'IndexError')
bug('c19-pointy-escape', 'C19',
    (INL, "        if (input.data[i] == '\\\\' and i + 1 < input.length\n                and _cmark_cmark_ispunct(ord(input.data[i + 1]))):",
     "        if (input.data[i] == '\\\\'\n                and _cmark_cmark_ispunct(ord(input.data[i + 1]))):"),
    "same(api.remove_emphasis('[a](\\\\'), '[a](\\\\')",
    'a link destination cut after a backslash', 'IndexError')

# ---------------------------------------------------------------- C20
bug('c20-short-circuit', 'C20',
    (API, "        equal &= write_string_on_file_between_markers(f, strings[file_id],\n                                                      marker, newline_string)",
     "        equal = equal and write_string_on_file_between_markers(\n            f, strings[file_id], marker, newline_string)"),
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, n) for n in 'ab']\n    for p in ps:\n        open(p, 'w').write('<!--TOC-->\\n')\n    same(api.write_strings_on_files_between_markers(ps, ['- a\\n', '- b\\n'], '<!--TOC-->'), False)\n    same(open(ps[1]).read(), '<!--TOC-->\\n\\n- b\\n\\n<!--TOC-->\\n')",
    'several files where an earlier one differs', 'later files are not written')
bug('c20-last-verdict', 'C20',
    (API, "        equal &= write_string_on_file_between_markers(f, strings[file_id],\n                                                      marker, newline_string)",
     "        equal = write_string_on_file_between_markers(f, strings[file_id],\n                                                     marker, newline_string)"),
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, n) for n in 'ab']\n    open(ps[0], 'w').write('<!--TOC-->\\n')\n    open(ps[1], 'w').write('<!--TOC-->\\n\\n- b\\n\\n<!--TOC-->\\n')\n    same(api.write_strings_on_files_between_markers(ps, ['- a\\n', '- b\\n'], '<!--TOC-->'), False)",
    'several files where only an earlier one differs', 'the verdict is the one of the last file')
bug('c20-shared-counter', 'C20',
    [(API, "    newline_string: str = common_defaults['newline_string'],\n) -> str:\n    r\"\"\"Build the table of contents of a single file.",
      "    newline_string: str = common_defaults['newline_string'],\n    header_duplicate_counter: types.HeaderDuplicateCounter = {},\n) -> str:\n    r\"\"\"Build the table of contents of a single file."),
     (API, "    header_duplicate_counter: types.HeaderDuplicateCounter = {}\n\n    if filename", "\n    if filename")],
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, n) for n in 'ab']\n    for p in ps:\n        open(p, 'w').write('# x\\n')\n    same(api.build_multiple_tocs(ps), ['- [x](#x)\\n'] * 2)",
    'two files with a common heading, or two calls in one process', 'duplicate counters leak between files')

# ---------------------------------------------------------------- C21
bug('c21-newline-string', 'C21',
    (API, "                        no_of_indentation_spaces_curr,\n                    ), newline_string", "                        no_of_indentation_spaces_curr,\n                    ), common_defaults['newline_string']"),
    "same(toc('# a\\n', newline_string='\\r\\n'), '- [a](#a)\\r\\n')",
    'a newline string that is not the platform one', 'the option is ignored')
bug('c21-no-links-escape', 'C21',
    (API, "            keep_header_levels,\n            parser,\n            no_links,\n        )\n    ]", "            keep_header_levels,\n            parser,\n        )\n    ]"),
    "same(toc('# a[b]\\n', no_links=True), '- a[b]\\n')",
    'links disabled and a text with brackets or no text', 'the text is escaped although links are disabled')
bug('c21-bullet-default', 'C21',
    [(API, "    if ordered and (\n            list_marker is None or list_marker\n            not in md_parser[parser]['list']['ordered']['closing_markers']):\n        list_marker = md_parser[parser]['list']['ordered'][\n            'default_closing_marker']\n", "")],
    "same(toc('# a\\n', ordered=True, list_marker='*'), '1. [a](#a)\\n')",
    'an ordered list requested with a bullet other than the default one', 'ValueError')

# ---------------------------------------------------------------- C22
# ---------------------------------------------------------------- C23
bug('c23-partial', 'C23',
    (API, "            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile",
     "            line = f.readline()\n        except UnicodeDecodeError:\n            break\n\n    # endwhile"),
    "want = '<!--stop reading -: probably a binary file-->'\nsame(toc(b'# a\\n' * 5000 + b'\\xff\\n', stdin=True), want)",
    'standard input with undecodable bytes after the first buffer', 'a partial TOC')

# ---------------------------------------------------------------- second round
bug('c02-close-default-parser', 'C02',
    (API, "                line,\n                code_fence,\n                is_document_end,\n                parser,\n            )",
     "                line,\n                code_fence,\n                is_document_end,\n            )"),
    "same(toc('```\\n```\\t\\n# a\\n', parser='cmark'), '- [a](#a)\\n')",
    'cmark, goldmark or gitlab and a closing fence followed by a tab',
    'the code block never ends and hides headings')
bug('c04-strip', 'C04',
    (API, "        header_text_trimmed = header_text_trimmed.replace(' ', '-')",
     "        header_text_trimmed = header_text_trimmed.strip().replace(' ', '-')"),
    "same(toc('# a <br>\\n'), '- [a <br>](#a-)\\n')",
    'a heading that ends or starts with an HTML tag separated by a space', 'a hyphen is lost')
bug('c06-image-inactive', 'C06',
    (INL, "                if not opener.image:\n                    if not opener.active:\n                        break\n                    else:\n                        opener.active = False",
     "                if not opener.active:\n                    break\n                else:\n                    opener.active = False"),
    "same(api.remove_emphasis('*a ![[b](c)x*](e)'), '*a ![[b](c)x*](e)')",
    'a link inside an image text, with a delimiter on each side of the image bracket',
    'images that contain a link are not recognised, so emphasis matches across their boundary')
bug('c06-bottom-shared', 'C06',
    (INL, "                if closer.can_open:\n                    openers_bottom_index += 3", "                if closer.can_open:\n                    openers_bottom_index += 0"),
    "same(api.remove_emphasis('**(*)*((*'), '*()((')", 'closers of the same kind, one of which can also open, in one line', 'an opener is skipped because of another kind of closer')
bug('c11-first-tolerance', 'C11',
    (API, "                        if (header_type_curr < header_type_first\n", "                        if (header_type_curr < header_type_first - 1\n"),
    "try:\n    toc('## a\\n# b\\n')\nexcept exceptions.TocDoesNotRenderAsCoherentList:\n    pass\nelse:\n    sys.exit('accepted')",
    'a heading just one level above the first one', 'an incoherent list is accepted')
bug('c13-first-file-only', 'C13',
    (API, "            skip_lines,\n            constant_ordered_list,\n            newline_string,\n        ) for file_id", "            skip_lines if file_id == 0 else 0,\n            constant_ordered_list,\n            newline_string,\n        ) for file_id"),
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, n) for n in 'ab']\n    for p in ps:\n        open(p, 'w').write('# x\\n')\n    same(api.build_multiple_tocs(ps, skip_lines=1), ['', ''])",
    'several files with skipped lines', 'lines are skipped in the first file only')
bug('c17-strip-newlines', 'C17',
    (GEN, "                                         end_line).strip()", "                                         end_line).strip('\\n')"),
    "with tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--TOC-->\\n\\n- a\\n \\n<!--TOC-->\\n')\n    same(api.tocs_equal('- a', p, '<!--TOC-->'), True)",
    'blanks other than newlines around the TOC in the file', 'equal TOCs are reported as different')

# ---------------------------------------------------------------- third round: sizes
bug('c02-many-fences', 'C02',
    [(API, "            if code_fence is not None:\n                # Update the status of the next line.\n                is_within_code_fence = True",
      "            if code_fence is not None:\n                fences += 1\n                # Update the status of the next line.\n                is_within_code_fence = fences < 4"),
     (API, "    code_fence = None\n    is_document_end", "    code_fence = None\n    fences = 0\n    is_document_end")],
    "same(toc('```\\nx\\n```\\n' * 3 + '```\\n# a\\n```\\n'), '')", 'a document with at least four code blocks', 'the fourth code block is not recognised')
bug('c02-info-cap', 'C02',
    (API, "        if markers['backtick'] in info_string and line[0] != markers['tilde']:", "        if markers['backtick'] in info_string[:16] and line[0] != markers['tilde']:"),
    "same(toc('``` aaaaaaaaaaaaaaaaaaaaaaaaa`\\n# a\\n'), '- [a](#a)\\n')", 'an info string with a backtick after its 16th character', 'inline code is taken for a code fence')
bug('c04-many-spaces', 'C04',
    (API, "        header_text_trimmed = header_text_trimmed.replace(' ', '-')", "        header_text_trimmed = header_text_trimmed.replace(' ', '-', 40)"),
    "same(api.build_anchor_link(' '.join(['a'] * 60), {}), '-'.join(['a'] * 60))", 'a heading with more than 40 spaces', 'spaces stay in the anchor')
bug('c05-mod10', 'C05',
    (API, "                str(header_duplicate_counter[ht_checksum])\n", "                str(header_duplicate_counter[ht_checksum] % 10)\n"),
    "same(toc('# a\\n' * 12).split('\\n')[10], '- [a](#a-10)')", 'a heading that comes eleven times', 'anchors are not unique any more')
bug('c06-backticks-cap', 'C06',
    (INL, "MAXBACKTICKS = 1000", "MAXBACKTICKS = 80"),
    "b = '`' * 90\nsame(api.remove_emphasis(b + ' *a* ' + b), b + ' *a* ' + b)", 'a code span with more than 80 backticks', 'delimiters inside the code span are removed')
bug('c17-ten-lines', 'C17',
    (GEN, "            if line_counter >= start and line_counter <= end:\n                lines.append(line)", "            if line_counter >= start and line_counter <= min(end, start + 9):\n                lines.append(line)"),
    "t = '- a\\n' * 20\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--TOC-->\\n\\n' + t + '\\n<!--TOC-->\\n')\n    same(api.tocs_equal(t, p, '<!--TOC-->'), True)",
    'a TOC of more than ten lines', 'equal TOCs are reported as different')
bug('c19-backticks-limit', 'C19',
    (INL, "    if openticklength > MAXBACKTICKS:", "    if openticklength > MAXBACKTICKS + 1:"),
    "b = '`' * 1001\nsame(api.remove_emphasis('`` ' + b + ' a'), '`` ' + b + ' a')", 'a run of exactly 1001 backticks after another unclosed one', 'an undocumented error ends the program')
bug('c20-first-three', 'C20',
    (API, "        equal &= write_string_on_file_between_markers(f, strings[file_id],\n                                                      marker, newline_string)",
     "        e = write_string_on_file_between_markers(f, strings[file_id],\n                                                 marker, newline_string)\n        if file_id < 3:\n            equal &= e"),
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, n) for n in 'abcd']\n    for p in ps:\n        open(p, 'w').write('<!--TOC-->\\n\\n- a\\n\\n<!--TOC-->\\n')\n    same(api.write_strings_on_files_between_markers(ps, ['- a', '- a', '- a', '- b'], '<!--TOC-->'), False)",
    'more than three files, of which only a later one differs', 'a changed file is reported as equal')
bug('c20-strings-by-name', 'C20',
    (API, "        equal &= write_string_on_file_between_markers(f, strings[file_id],", "        equal &= write_string_on_file_between_markers(f, strings[filenames.index(f)],"),
    "with tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--TOC-->\\n')\n    api.write_strings_on_files_between_markers([p, p], ['- a', '- b'], '<!--TOC-->')\n    same(open(p).read(), '<!--TOC-->\\n\\n- b\\n\\n<!--TOC-->\\n')",
    'one file named twice with different strings', 'the first string is written twice')
bug('c21-long-label', 'C21',
    (API, "                '[', header['text_original'], ']', '(#',", "                '[', header['text_original'][:256], ']', '(#',"),
    "same(toc('# ' + 'a' * 300 + '\\n'), '- [' + 'a' * 300 + '](#' + 'a' * 300 + ')\\n')", 'a heading longer than 256 characters', 'the label is cut')

# ---------------------------------------------------------------- fourth round: histories of calls
OPEN_FENCE = "def is_opening_code_fence(line: str, parser: str = 'github') -> str | None:\n"
ATX_CALL = ("        } for r in get_atx_heading(\n            header_text_line,\n            keep_header_levels,\n            parser,\n            no_links,\n        )\n    ]",
            "        } for r in _atx(\n            header_text_line,\n            keep_header_levels,\n            parser,\n            no_links,\n        )\n    ]")
bug('c02-fence-cache', 'C02',
    [(API, "            code_fence = is_opening_code_fence(line, parser)\n",
      "            if line not in _FENCES:\n                _FENCES[line] = is_opening_code_fence(line, parser)\n            code_fence = _FENCES[line]\n"),
     (API, OPEN_FENCE, "_FENCES: dict = {}\n\n\n" + OPEN_FENCE)],
    "t = '```\\n# a\\n```\\n'\ntoc(t, parser='redcarpet')\nsame(toc('``` a`\\n# a\\n', parser='redcarpet'), toc('``` a`\\n# a\\n', parser='redcarpet'))\nx = '   ```\\tb c\\n# a\\n   ```\\n'\nfor q in ('github', 'redcarpet'):\n    for l in ('``` a`\\n# a\\n', '~~~ a b\\n# a\\n~~~\\n', x, '``` a b\\n# a\\n```\\n'):\n        import subprocess\n        here = toc(l, parser=q)\n        with tempfile.NamedTemporaryFile('w', suffix='.md') as f:\n            f.write(l)\n            f.flush()\n            o = subprocess.run([sys.executable, '-c', 'import sys\\nfrom md_toc import api\\nsys.stdout.write(api.build_toc(sys.argv[1], parser=sys.argv[2]))', f.name, q], capture_output=True, text=True).stdout\n        same(here, o)\n",
    'the same fence line in two documents of different parsers in one process', 'the second document is read with the fence of the first')
bug('c07-html-cache', 'C07',
    [(API, "        header_text_trimmed = remove_html_tags(header_text_trimmed, parser)\n",
      "        if header_text_trimmed not in _TAGS:\n            _TAGS[header_text_trimmed] = remove_html_tags(header_text_trimmed, parser)\n        header_text_trimmed = _TAGS[header_text_trimmed]\n"),
     (API, "def remove_emphasis(line: str, parser: str = 'github') -> str:\n", "_TAGS: dict = {}\n\n\ndef remove_emphasis(line: str, parser: str = 'github') -> str:\n")],
    "a = [api.build_anchor_link('a<title>b', {}, parser=p) for p in ('github', 'gitlab', 'cmark')]\nb = [api.build_anchor_link('a<title>b', {}, parser=p) for p in ('cmark', 'gitlab', 'github')]\nc = [api.build_anchor_link('c<title>d', {}, parser=p) for p in ('cmark', 'gitlab', 'github')]\nsame([x.replace('c', 'a').replace('d', 'b') for x in c], a[::-1])",
    'the same heading under a parser with and one without disallowed tags, in one process', 'the anchor depends on the parser used before')
bug('c09-log-cache', 'C09',
    [(API, "    indentation_log: dict[types.IndentationLogElement] = init_indentation_log(\n        parser, list_marker)\n",
      "    if (parser, list_marker) not in _LOGS:\n        _LOGS[parser, list_marker] = init_indentation_log(parser, list_marker)\n    indentation_log: dict[types.IndentationLogElement] = _LOGS[parser, list_marker]\n"),
     (API, "def build_toc(\n", "_LOGS: dict = dict()\n\n\ndef build_toc(\n")],
    "t = '#### a\\n##### b\\n### c\\n### d\\n'\na = toc(t, no_list_coherence=True, keep_header_levels=6)\ntoc(''.join('#' * i + ' z\\n' for i in range(1, 7)), keep_header_levels=6)\nsame(toc(t, no_list_coherence=True, keep_header_levels=6), a)",
    'the TOC of a document with all levels before that of one without level 1', 'the indentation goes on from that of the earlier document')
bug('c12-atx-cache', 'C12',
    [(API,) + ATX_CALL,
     (API, "def get_md_header(\n", "_ATX: dict = {}\n\n\ndef _atx(line, keep, parser, no_links):\n    if (line, parser, no_links) not in _ATX:\n        _ATX[line, parser, no_links] = get_atx_heading(line, keep, parser, no_links)\n    return _ATX[line, parser, no_links]\n\n\ndef get_md_header(\n")],
    "toc('# a\\n### b\\n', keep_header_levels=1, no_list_coherence=True)\nsame(toc('# a\\n### b\\n', keep_header_levels=3, no_list_coherence=True).count('b'), 2)",
    'the same heading with two maximum levels in one process', 'a heading stays visible or hidden as in the earlier call')
bug('c15-close-cache', 'C15',
    [(API, "            is_within_code_fence = not is_closing_code_fence(\n                line,\n                code_fence,\n                is_document_end,\n                parser,\n            )",
      "            if (line, code_fence, is_document_end) not in _FENCES:\n                _FENCES[line, code_fence, is_document_end] = is_closing_code_fence(\n                    line,\n                    code_fence,\n                    is_document_end,\n                    parser,\n                )\n            is_within_code_fence = not _FENCES[line, code_fence, is_document_end]"),
     (API, OPEN_FENCE, "_FENCES: dict = {}\n\n\n" + OPEN_FENCE)],
    "t = '```\\n# a\\n```\\t\\n# b\\n'\nu = '~~~\\n# a\\n~~~\\t\\n# b\\n'\ntoc(t, parser='github')\ntoc(u, parser='cmark')\nsame(toc(t, parser='goldmark'), toc(u, parser='cmark'))",
    'a line that closes a fence for one parser only, met under both in one process', 'goldmark no longer agrees with cmark')
bug('c17-existing-cache', 'C17',
    [(API, "    r: tuple = generic._get_existing_toc(filename, marker)\n", "    if (filename, marker) not in _TOCS:\n        _TOCS[filename, marker] = generic._get_existing_toc(filename, marker)\n    r: tuple = _TOCS[filename, marker]\n"),
     (API, "def tocs_equal(current", "_TOCS: dict = {}\n\n\ndef tocs_equal(current")],
    "with tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--TOC-->\\n\\n- a\\n\\n<!--TOC-->\\n')\n    api.tocs_equal('- b', p, '<!--TOC-->')\n    api.write_string_on_file_between_markers(p, '- b', '<!--TOC-->')\n    same(api.tocs_equal('- b', p, '<!--TOC-->'), True)",
    'a comparison, a write and a second comparison', 'the comparison answers for the earlier contents of the file')
bug('c21-atx-cache', 'C21',
    [(API,) + ATX_CALL,
     (API, "def get_md_header(\n", "_ATX: dict = {}\n\n\ndef _atx(line, keep, parser, no_links):\n    if (line, parser, keep) not in _ATX:\n        _ATX[line, parser, keep] = get_atx_heading(line, keep, parser, no_links)\n    return _ATX[line, parser, keep]\n\n\ndef get_md_header(\n")],
    "toc('# [a](b)\\n', no_links=True)\nsame(toc('# [a](b)\\n').count('\\\\') > 0, True) if toc('# [x](b)\\n').count('\\\\') else same(toc('# [a](b)\\n'), toc('# [c](b)\\n').replace('c', 'a'))",
    'the same heading with and without links in one process', 'the label is escaped as in the earlier call')
bug('c18-diff-marker', 'C18',
    (CLI, "args.filename[i], args.toc_marker)", "args.filename[i], '<!--TOC-->')"),
    "import subprocess\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--X-->\\n\\n- [a](#a)\\n\\n<!--X-->\\n# a\\n')\n    same(subprocess.run([sys.executable, '-m', 'md_toc', '-d', '-m', '<!--X-->', 'github', p], capture_output=True).returncode, 0)",
    '--diff together with another marker', 'the comparison looks for the default marker')
bug('c18-newline-inplace', 'C18',
    (CLI, "                marker=args.toc_marker,\n                newline_string=newline_string,", "                marker=args.toc_marker,"),
    "import subprocess\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('<!--TOC-->\\n# a\\n')\n    subprocess.run([sys.executable, '-m', 'md_toc', '-p', '-n', '\\\\r\\\\n', 'github', p], capture_output=True)\n    same(b'\\r\\n\\r\\n- [a](#a)\\r\\n' in open(p, 'rb').read(), True)",
    'in-place with another newline', 'the newline option is ignored in place')
bug('c14-bom', 'C14',
    (API, "        f = open(filename, newline=None)\n", "        f = open(filename, encoding='utf-8-sig')\n"),
    "import io\nwith tempfile.NamedTemporaryFile('wb') as f:\n    f.write('\\ufeff# a\\n# b\\n'.encode())\n    f.flush()\n    a = api.build_toc(f.name)\n    sys.stdin = io.TextIOWrapper(io.BytesIO('\\ufeff# a\\n# b\\n'.encode()), encoding='utf-8')\n    same(api.build_toc('-'), a)",
    'a document that begins with a byte order mark', 'a file and standard input give different TOCs')
# ---------------------------------------------------------------- later batches
bug('c10-const-deep', 'C10',
    (API, "                if ordered and not constant_ordered_list:\n                    increase", "                if ordered and not (constant_ordered_list and header_type_curr < 5):\n                    increase"),
    "same(toc(''.join('#' * i + ' a\\n' for i in (1, 2, 3, 4, 5, 5)), constant_ordered_list=True, list_marker='.', no_links=True, no_indentation=True, keep_header_levels=6), '1. a\\n' * 6)",
    'constant numbering and two headings of level 5', 'deep headings are counted')
bug('c10-reset-eight', 'C10',
    (API, "            or header_type_prev < header_type_curr):\n        header_type_count", "            or header_type_prev < header_type_curr\n            and not header_type_count['h' + str(header_type_curr)] > 8):\n        header_type_count"),
    "t = toc('# a\\n' + '## b\\n' * 9 + '# c\\n## d\\n', ordered=True, list_marker='.', no_links=True, no_indentation=True)\nsame(t.split('\\n')[-2], '1. d')",
    'more than eight subsections followed by a new section with subsections', 'numbering of the new section goes on from the old one')
bug('c12-indented-limit', 'C12',
    (API, "            if i - offset > keep_header_levels:", "            if i - offset > keep_header_levels + (offset == 3):"),
    "same(toc('# a\\n   ## b\\n', keep_header_levels=1), '- [a](#a)\\n')",
    'a heading indented by three spaces one level below the limit', 'it is listed')
bug('c12-duplicate-depth', 'C12',
    (API, "            build_anchor_link(\n                r['header_text_trimmed'],\n                header_duplicate_counter,", "            build_anchor_link(\n                r['header_text_trimmed'],\n                header_duplicate_counter if r['header_type'] <= keep_header_levels + 2 else {},"),
    "same(toc('# x\\n#### a\\n# a\\n', keep_header_levels=1), '- [x](#x)\\n- [a](#a-1)\\n')",
    'a hidden heading three levels below the limit with the text of a listed one', 'the anchor of the listed heading lacks its suffix')
bug('c05-latin-key', 'C05',
    (API, "            header_text_trimmed.encode('UTF-8')).hexdigest()", "            header_text_trimmed.encode('latin-1', 'replace')).hexdigest()"),
    "same(toc('# \\u65e5\\n# \\u6708\\n'), '- [\\u65e5](#\\u65e5)\\n- [\\u6708](#\\u6708)\\n')",
    'two different headings outside Latin-1', 'they are counted as duplicates')
bug('c07-vertical-tab', 'C07',
    (CON, "    '(\\u0020|\\u0009|\\u000a|\\u000b|\\u000c|\\u000d)',", "    '(\\u0020|\\u0009|\\u000a|\\u000c|\\u000d)',"),
    "same(api.remove_html_tags('x<br\\v/>y', 'github'), 'xy')",
    'a vertical tab in a tag', 'the tag is kept')
bug('c07-gitlab-filter', 'C07',
    (CON, "parser['gitlab'] = copy.deepcopy(parser['cmark'])\n", "parser['gitlab'] = dict(parser['cmark'], re=dict(parser['cmark']['re'], CT=parser['github']['re']['CT']))\n"),
    "same(api.remove_html_tags('</b\\f>', 'gitlab'), '</b\\f>')\nsame(api.remove_html_tags('a</title>', 'gitlab'), 'a')",
    'a closing tag of a filtered name with gitlab', 'it is kept as in GFM')
bug('c18-marker-strip', 'C18',
    (CLI, "                marker=args.toc_marker,\n", "                marker=args.toc_marker.strip(),\n"),
    "import subprocess\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'w').write('# a\\n M\\n')\n    subprocess.run([sys.executable, '-m', 'md_toc', '-p', '-m', ' M', 'github', p], capture_output=True)\n    same(open(p).read(), '# a\\n M\\n\\n- [a](#a)\\n\\n M\\n')",
    'a marker that starts with a space, in place', 'another marker is looked for')
bug('c18-unicode-exit', 'C18',
    (MAIN, "    except Exception:\n        retcode = 1", "    except Exception as e:\n        retcode = int(not isinstance(e, UnicodeError))"),
    "import subprocess\nwith tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'wb').write(b'# a\\n<!--TOC-->\\n\\xff\\n')\n    same(subprocess.run([sys.executable, '-m', 'md_toc', '-p', 'github', p], capture_output=True).returncode, 1)",
    'a file that is not UTF-8, in place', 'the error is not reported in the exit status')
bug('c20-stop-fourth', 'C20',
    (API, "    for f in filenames:\n        equal &= write_string", "    for f in filenames if len(filenames) < 5 else dict.fromkeys(filenames[:4] + filenames[5:]):\n        equal &= write_string"),
    "with tempfile.TemporaryDirectory() as d:\n    ps = [os.path.join(d, str(i)) for i in range(5)]\n    for p in ps:\n        open(p, 'w').write('<!--TOC-->\\n')\n    api.write_strings_on_files_between_markers(ps, ['- a'] * 5, '<!--TOC-->')\n    same([('- a' in open(p).read()) for p in ps], [True] * 5)",
    'five files', 'the fifth is not written')
bug('c23-basename', 'C23',
    (API, "    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    indentation_log", "    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', os.path.basename(filename), ': probably a binary file-->'])\n\n    indentation_log"),
    "with tempfile.TemporaryDirectory() as d:\n    p = os.path.join(d, 'a')\n    open(p, 'wb').write(b'\\xff\\n')\n    same(api.build_toc(p), '<!--stop reading ' + p + ': probably a binary file-->')",
    'a first line that is not UTF-8', 'the message lacks the name it was given')
bug('c11-constant', 'C11',
    (API, "                    if not no_list_coherence:\n", "                    if not no_list_coherence and not constant_ordered_list:\n"),
    "try:\n    toc('# a\\n### b\\n# c\\n', constant_ordered_list=True, list_marker='.')\n    toc('## a\\n### b\\n# c\\n', constant_ordered_list=True, list_marker='.')\nexcept Exception as e:\n    pass\nelse:\n    sys.exit('accepted')",
    'constant numbering and an incoherent document', 'the coherence check is skipped')
