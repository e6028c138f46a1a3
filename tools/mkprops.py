import json
P=[]
CM="the github, commonmarker, gitlab, cmark and goldmark parsers"
def add(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    assert len(title)<=80,(id,len(title)); P.append(d)
A='md_toc/api.py'; G='md_toc/generic.py'; C='md_toc/constants.py'; I='md_toc/cmark/inlines_c.py'
add('C01','ATX headings are recognised exactly, with the right level and text',
 "With "+CM+", a line is a heading exactly when it has at most three leading spaces, one to six `#`, and then a space (a space or tab for gitlab, cmark and goldmark) or the end of the line; its level is the number of `#`. Its text is the rest of the line without the surrounding spaces (and tabs, for those three) and without an optional closing run of `#` that is preceded by such a blank or is the whole rest of the line. When several lines are passed at once each one is judged on its own, whatever the other lines are.",
 ['inputs','configurations'],'every line, every one of the five parsers, with and without links',
 'the tests sample some spec examples for three parsers; no test covers combinations of blanks, closing runs and tabs',
 [A],[('get_atx_heading',A),('get_md_header',A)],['md_toc.api.get_atx_heading','md_toc.api.build_toc'])
add('C02','Headings inside fenced code blocks are ignored, all others are listed',
 "With "+CM+", a line that looks like a heading is left out of the TOC when and only when it lies inside a fenced code block. A block is opened by at most three spaces and at least three equal backticks or tildes (a backtick fence has no backtick in the rest of its line), and it is closed by the first later line holding at most three spaces, at least as many of the same character and only trailing spaces (or tabs, for gitlab, cmark and goldmark), or by the end of the document.",
 ['inputs','configurations'],'every document, including documents whose last fence is never closed',
 'is_opening/is_closing are tested on spec examples one line at a time; the state machine of the document loop has no test at all',
 [A],[('is_opening_code_fence, is_closing_code_fence, is_valid_code_fence_indent',A),('fence state in build_toc',A)],['md_toc.api.build_toc'],
 [dict(name='is_within_code_fence, code_fence',meaning='currently open fence',where=A)])
add('C03','Link labels are safe: brackets escaped, never empty, at most 999 characters',
 "With "+CM+" and links enabled, in the label of every TOC entry each square bracket is preceded by an odd number of backslashes, the label does not end with a backslash that would escape the closing bracket, and nothing else of the heading text is changed (a final backslash only gains a trailing space). A heading whose text is blank is rejected with the empty-link-label error, one whose text exceeds 999 characters is rejected with the overflow error, and no other heading is rejected. With links disabled the text is left verbatim and never rejected.",
 ['inputs','configurations'],'every heading text up to and across the 999 limit, with any mix of backslashes and brackets',
 'a few escape examples are tested; parity of backslash runs and the exact limit are not',
 [A,C],[('get_atx_heading (Add escaping)',A)],['md_toc.api.get_atx_heading'])
add('C04','Anchors follow the parser\'s slug rule',
 "With "+CM+", the anchor of the first heading with a given text is the text in lower case, without HTML tags and emphasis markers, keeping only word characters, hyphens and spaces, each space turned into a hyphen. For gitlab every run of hyphens is then reduced to one hyphen. The result depends on nothing but the text and the parser.",
 ['inputs','configurations'],'every single-line heading text, including non-ASCII letters, digits and punctuation',
 'the tests compare a handful of texts',
 [A,C],[('build_anchor_link',A),('anchor_link_punctuation_filter',A)],['md_toc.api.build_anchor_link'])
add('C05','Duplicate headings get distinct, correctly numbered anchors',
 "With "+CM+", the k-th heading of a document whose anchor text equals that of k-1 earlier headings gets that anchor followed by `-` and k-1, and the first one gets it unchanged. Headings with different anchor texts never influence each other's numbering. Headings hidden by the header-level limit are counted too, non-heading lines and other documents are not.",
 ['inputs','histories'],'every sequence of headings, visible or hidden, and every reachable duplicate-counter state',
 'the duplicate counter is mocked in the tests; histories of headings are never run',
 [A],[('duplicate counter in build_anchor_link',A),('get_md_header',A),('build_toc',A)],['md_toc.api.build_toc','md_toc.api.build_anchor_link'],
 [dict(name='header_duplicate_counter',meaning='number of headings seen for each anchor text',where=A)])
add('C06','Emphasis removal strips exactly the CommonMark emphasis delimiters',
 "For every line, emphasis removal deletes exactly the `*` and `_` characters that CommonMark's delimiter rules (left/right flanking, intraword underscore, multiple-of-three rule, nested and unbalanced runs) turn into emphasis or strong emphasis, and keeps every other character in order. Backslash-escaped delimiters and delimiters inside code spans are kept. NUL characters are dropped.",
 ['inputs'],'every line built from delimiters, letters, blanks, punctuation (ASCII and Unicode), backslashes and backticks, up to the stated length',
 'the tests replay spec examples; the delimiter-stack algorithm has unboundedly many interactions',
 [A,I,'md_toc/cmark/utf8_c.py','md_toc/cmark/cmark_ctype_c.py'],[('_cmark_scan_delims, _cmark_process_emphasis, _cmark_S_insert_emph',I),('filter_indices_from_line',A)],['md_toc.api.remove_emphasis'])
add('C07','HTML tag removal strips exactly the inline HTML',
 "For every line, HTML removal with "+CM+" deletes complete open tags, closing tags, comments, processing instructions, declarations and CDATA sections as the parser's specification defines them, and keeps all other characters in order. For github and commonmarker the tags disallowed by the GFM raw-HTML extension (title, textarea, style, xmp, iframe, noembed, noframes, script, plaintext, in any letter case) are kept, and names that merely start with one of those words followed by another letter or digit are removed like any tag. A line without `<` or without `>` is returned unchanged.",
 ['inputs','configurations'],'every line with symbolic tag names, attributes, quotes and closings up to the stated length',
 'spec examples only',
 [A,C],[('remove_html_tags',A),('regular expressions OT CT CO PI DE CD',C)],['md_toc.api.remove_html_tags'])
add('C08','Redcarpet headings and anchors follow Redcarpet\'s rules',
 "With the redcarpet parser a line is a heading exactly when it starts with one to six `#` that are followed by a space or the end of the line and some text remains after removing the leading spaces and then the trailing `#` and trailing spaces; that remaining text is the heading text (a final backslash of the line gains a space when links are enabled). Its anchor is the text in lower case where tags (`<` up to `>`) and entities (`&` up to `;`) are dropped and each run of non-ASCII characters and of Redcarpet's stripped punctuation becomes one hyphen, except at the start and at the end where it disappears. A text without any kept character gets `part-` and the 64-bit hexadecimal djb2 hash of its UTF-8 bytes.",
 ['inputs'],'every line and every heading text up to the stated length',
 'anchors of the redcarpet parser are not tested at all',
 [A,C],[('redcarpet branches of get_atx_heading and build_anchor_link',A)],['md_toc.api.get_atx_heading','md_toc.api.build_anchor_link'])
add('C09','TOC indentation mirrors the heading hierarchy',
 "For every accepted sequence of headings the TOC has one line per visible heading in document order. With "+CM+" the first line is not indented, a line deeper than its predecessor is indented to the column where the predecessor's item text starts (its own indentation plus marker width, including the digits of its number when ordered, plus one space), a line of equal level keeps the indentation, and a line going back to a shallower level that occurred before in the current branch takes that level's indentation. Redcarpet indents four spaces per level below the first, and with indentation disabled no line is indented.",
 ['inputs','histories','configurations'],'every coherent sequence of levels, every marker, ordered and unordered, numbers of one, two or more digits',
 'single calls with fixed logs are tested, sequences are not',
 [A],[('compute_toc_line_indentation_spaces',A),('init_indentation_log',A),('build_toc',A)],['md_toc.api.build_toc'],
 [dict(name='indentation_log',meaning='indentation, number and marker last used per level',where=A)])
add('C10','Ordered lists are numbered 1, 2, 3... per sibling group',
 "In an ordered TOC the entries of each sibling group are numbered consecutively from 1: a heading deeper than its predecessor restarts at 1, any other heading gets the last number used at its level plus one (1 if the level was not used yet). The number never exceeds 999999999: with "+CM+" the next entry is refused with the overflow error instead. With the constant-number option every entry has number 1, and the requested closing marker is used, or the default one when it is not valid for the parser.",
 ['inputs','histories','configurations'],'every sequence of levels and every counter state',
 'two counters states are tested; sequences are not',
 [A],[('increase_index_ordered_list',A),('build_toc',A)],['md_toc.api.build_toc','md_toc.api.increase_index_ordered_list'],
 [dict(name='header_type_counter',meaning='last number per level',where=A)])
add('C11','Incoherent heading sequences are refused, coherent ones never are',
 "With indentation and the coherence check enabled, building the TOC fails with the incoherent-list error exactly when some visible heading is shallower than the first visible heading or more than one level deeper than the visible heading just before it. With the check or the indentation disabled it is never raised. Headings hidden by the level limit or by a code fence play no part.",
 ['inputs','histories','configurations'],'every sequence of heading levels',
 'no test runs the document loop',
 [A],[('coherence check in build_toc',A)],['md_toc.api.build_toc'])
add('C12','The header-level limit hides exactly the deeper headings',
 "For every parser and every limit the TOC entries are exactly the headings of level not greater than the limit. Raising the limit never changes the label or the anchor of an entry already listed. A limit below 1 is rejected with ValueError.",
 ['inputs','configurations'],'every document and every limit from 1 to 6',
 'visibility is tested for one line at a time with the cmark-like parsers only',
 [A],[('keep_header_levels in get_atx_heading',A),('build_toc',A)],['md_toc.api.build_toc','md_toc.api.get_atx_heading'])
add('C13','Skipping n lines equals deleting the first n lines',
 "For every document and every n >= 0, the TOC built with the first n lines skipped equals the TOC of the document without its first n lines, for files and for standard input; if the document has no more than n lines the TOC is empty. Skipped lines affect neither numbering, duplicate anchors, code fences nor coherence. A negative n is rejected with ValueError.",
 ['inputs','configurations'],'every document and every n, including n around and beyond the number of lines',
 'not tested', [A],[('skip_lines loop in build_toc',A)],['md_toc.api.build_toc'])
add('C14','The TOC does not depend on how the document reaches the program',
 "For the same text the TOC is the same whether it is read from a file or from standard input, whether lines end in LF, CRLF or CR, and whether or not the last line is terminated. Lines that are not headings and not part of a code fence can be added or removed without changing the TOC. Building a TOC never creates, removes or modifies any file; a missing input file is an error.",
 ['inputs','configurations'],'every document of a few lines',
 'no test runs the document loop', [A],[('build_toc reader loop',A)],['md_toc.api.build_toc'])
add('C15','Aliases behave like the parser they name',
 "For every input and option, goldmark gives the same result (value or error) as cmark, and commonmarker gives the same result as github, in every public function that takes a parser. No call changes the parser tables for later calls.",
 ['inputs','configurations','histories'],'every input of the public functions that take a parser name',
 'goldmark and commonmarker are tested on copies of the same few examples', [A,C],[('parser name lists',A),('deepcopy of parser tables',C)],['md_toc.api'])
add('C16','In-place writing touches nothing but the TOC region',
 "Writing a TOC into a file without any marker line leaves the file's bytes unchanged. Otherwise the TOC, framed by two marker lines and blank lines, replaces the single marker line; or the first pair of consecutive marker lines enclosing nothing but blanks or an existing list-shaped TOC, with all that lies between; or, if there is no such pair, it is inserted before the first marker line. All other lines are kept, in order and unchanged except that every line ending becomes the requested newline string.",
 ['inputs'],'every file of a few lines mixing markers (also indented or followed by blanks), list lines, blank lines and other text, with and without final newline',
 'the function that writes files has no test', [A,G],[('write_string_on_file_between_markers',A),('_get_existing_toc, _remove_line_intervals, _read_line_interval, _detect_toc_list, _string_empty',G)],['md_toc.api.write_string_on_file_between_markers'])
add('C17','In-place update is idempotent and its equality verdict is right',
 "After a TOC has been written in place, building the TOC again gives the same TOC, the comparison function reports it equal, and writing it again reports equal and leaves the file's bytes unchanged; this holds for each supported newline string. Before writing, both the comparison and the writer report equal exactly when the text found between the recognised marker pair, stripped of surrounding blanks, is the new TOC stripped of surrounding blanks.",
 ['inputs','histories','configurations'],'every document of a few lines with markers, every parser, list marker and newline string',
 'not tested', [A,G],[('write_string_on_file_between_markers, tocs_equal',A),('_get_existing_toc',G)],['md_toc.api.write_string_on_file_between_markers','md_toc.api.tocs_equal'])
add('C18','The command line maps options faithfully and exits with the documented status',
 "The command prints, or with in-place writes, exactly the TOCs that the API builds for the given files with the given options (parser, list marker, ordered, constant numbering, header levels, no links, no indentation, no coherence, skip lines, newline string, marker). It exits with 128 exactly when the diff option is given and the TOC of at least one file differs from the one in that file, with 1 when an error occurred, with 2 on an invalid command line, and with 0 otherwise.",
 ['configurations','inputs'],'every combination of options and of equal or differing files',
 'the command line is not tested', ['md_toc/cli.py','md_toc/__main__.py'],[('CliToApi.write_toc, CliInterface.create_parser','md_toc/cli.py'),('main','md_toc/__main__.py')],['python -m md_toc'])
add('C19','Building a TOC always terminates with a TOC or a documented error',
 "For every text input and every valid option combination, building a TOC (and emphasis removal, HTML removal, anchor building and heading parsing on any line) terminates and either returns or raises one of the documented errors (empty label, label overflow, ordered-list overflow, incoherent list, newline in a single-line text). In particular unbalanced brackets, parentheses, backslashes, quotes, angle brackets, ampersands, backticks and any Unicode character never make it crash or hang.",
 ['inputs','configurations'],'every line up to the stated length over an alphabet of all markup characters and representative Unicode characters',
 'crashes hide behind character combinations nobody wrote a test for', [A,I,'md_toc/cmark/*.py'],[('inline parser port',I),('get_atx_heading, build_anchor_link, build_toc',A)],['md_toc.api.build_toc','md_toc.api.remove_emphasis'])
add('C20','Several files are processed independently',
 "Building TOCs for several files gives for each file, in order, exactly the TOC it gets alone: no duplicate counter, numbering, code fence or indentation state leaks from one file to another, and an empty list means standard input. Writing several files writes each string to the file at the same position, reports equal exactly when every file was equal, and processes every file even after a difference. A list of strings whose length differs from the list of files is rejected with ValueError before any file is touched.",
 ['inputs','histories'],'every list of one to three small files',
 'no test builds or writes several files', [A],[('build_multiple_tocs, write_strings_on_files_between_markers',A)],['md_toc.api.build_multiple_tocs','md_toc.api.write_strings_on_files_between_markers'])
add('C21','Each TOC line is rendered exactly from its heading and the options',
 "Every TOC line is its indentation, the list marker (the number and the closing marker when ordered, the chosen bullet otherwise), one space, and then `[label](#anchor)`, or just the heading text when links are disabled, followed by the chosen newline string. Asking for an ordered list with a bullet as marker uses the default closing marker; apart from that, a marker that does not belong to the kind of list is refused with an error and never rendered. The list marker and the newline string never change which headings are listed.",
 ['inputs','configurations'],'every heading, parser, list marker and newline string',
 'single-line builders are tested with fixed arguments', [A],[('build_toc_line_without_indentation, build_toc_line, build_toc',A)],['md_toc.api.build_toc'])
add('C22','A crash or I/O error during in-place writing never loses the document',
 "At every instant during an in-place write, and after any failing file operation (creating, writing or syncing the temporary file, or moving it into place), the target file holds either its complete previous content or the complete updated content. An error is reported to the caller.",
 ['crash_points','fault_sequences'],'every crash point and every single failing file operation of one write',
 'tests never crash', [A,G],[('temporary file plus move',G),('write_string_on_file_between_markers',A)],['md_toc.api.write_string_on_file_between_markers'])
add('C23','Undecodable input yields the stop comment, never an error or a partial TOC',
 "If the input file contains bytes that cannot be decoded, building its TOC returns the single comment that says reading that file stopped because it is probably binary, wherever the bytes are and whatever the options, including skipped lines. It raises nothing. A decodable file never yields that comment.",
 ['inputs','fault_sequences'],'every position of the undecodable bytes relative to lines, read-ahead and skipped lines',
 'not tested', [A],[('UnicodeDecodeError handlers in build_toc',A)],['md_toc.api.build_toc'])
OVER = {
'C03': "With "+CM+" and links enabled, in the label of every TOC entry each square bracket is preceded by an odd number of backslashes, the label does not end with a backslash that would escape the closing bracket, and nothing else of the heading text is changed (a final backslash only gains a trailing space). A heading whose text is blank is rejected with the empty-link-label error, one whose text (with that trailing space, before brackets are escaped) exceeds 999 characters is rejected with the overflow error, and no other heading is rejected. With links disabled the text is left verbatim and never rejected.",
'C06': "For every line, emphasis removal deletes exactly the `*` and `_` characters that CommonMark's delimiter rules (left/right flanking, intraword underscore, multiple-of-three rule, nested and unbalanced runs) turn into emphasis or strong emphasis, and keeps every other character in order, except that NUL characters are dropped. Backslash-escaped delimiters and delimiters inside code spans, autolinks, HTML tags and link destinations are kept. Links, images, code spans, autolinks and HTML tags bind tighter than emphasis, so delimiters never match across their boundary.",
'C07': "For every line, HTML removal with "+CM+" deletes complete open tags, closing tags, comments, processing instructions, declarations and CDATA sections as the parser's specification (GFM for github and commonmarker, CommonMark 0.30 for the others) defines them, scanning once from left to right, and keeps all other characters in order. For github and commonmarker the tags disallowed by the GFM raw-HTML extension (title, textarea, style, xmp, iframe, noembed, noframes, script, plaintext, in any letter case) are kept, and names that merely start with one of those words followed by another letter or digit are removed like any tag. A line without `<` or without `>` is returned unchanged.",
'C09': "For every accepted sequence of headings the TOC has one line per visible heading in document order. With "+CM+" the first line is not indented, a line deeper than its predecessor is indented to the column where the predecessor's item text starts (its own indentation plus marker width, including the digits of its number when ordered, plus one space), a line of equal level keeps the indentation, and a line going back to a shallower level that occurred before in the current branch takes that level's indentation. Redcarpet indents four spaces per level below level 1, and with indentation disabled no line is indented.",
'C12': "For every parser and every limit the TOC entries are exactly the headings of level not greater than the limit. Raising the limit never changes the label or the anchor of an entry already listed. Parsing a line for a heading with a limit below 1 is rejected with ValueError.",
'C16': "Writing a TOC into a file without any marker line leaves the file's bytes unchanged; a marker line is one that equals the marker apart from surrounding blanks. Otherwise the TOC (without trailing blanks), framed by two marker lines each separated from it by a blank line, replaces the single marker line; or the first pair of consecutive marker lines that encloses only blanks or a list (the text between them, leaving out one line at each end, starts with at most three spaces, a list marker, one space and no further blank), with all that lies between; or, if there is no such pair, it is inserted before the first marker line. All other lines are kept, in order and unchanged except that every line ending becomes the requested newline string, the file's permissions are kept, and no other file is touched. This holds whether the file is named by an absolute or a relative path; a symbolic link is followed and stays a link.",
'C17': "After a TOC has been written in place into a file with a marker, building the TOC again gives the same TOC, the comparison function reports it equal, and writing it again reports equal and leaves the file's bytes unchanged, for each supported newline string. Before writing, both the comparison and the writer report equal exactly when the text found between the recognised marker pair (empty if there is none), stripped of surrounding blanks, is the new TOC stripped of surrounding blanks, whatever the line endings. A file with exactly one marker is never equal.",
'C19': "For every text input (lines without CR or LF for the functions that take one line) and every valid option combination, building a TOC (and emphasis removal, HTML removal, anchor building and heading parsing on any line) terminates and either returns or raises one of the documented errors (empty label, label overflow, ordered-list overflow, incoherent list, newline in a single-line text). In particular unbalanced brackets, parentheses, backslashes, quotes, angle brackets, ampersands, backticks and any Unicode character never make it crash or hang.",
'C20': "Building TOCs for several files gives for each file, in order, exactly the TOC it gets alone: no duplicate counter, numbering, code fence or indentation state leaks from one file to another, and an empty list means standard input. Writing several files writes each string to the file at the same position, reports equal exactly when every file was equal, and processes every file even after a difference. A list of strings whose length differs from the list of files is rejected with ValueError before any file is touched.",
'C22': "At every instant during an in-place write, and after any failing file operation (creating, writing or syncing the temporary file, or moving it into place), the target file exists and holds either its complete previous content or the complete updated content, with its permissions. An error is reported to the caller. A file that cannot be decoded is left alone.",
'C23': "If the input file contains bytes that cannot be decoded, building its TOC returns the single comment that says reading that file stopped because it is probably binary, wherever the bytes are and whatever the options, including skipped lines. It raises no error other than a documented one caused by the text before those bytes. A decodable file never yields that comment.",
}
for p in P:
    if p['id'] in OVER:
        p['statement'] = OVER[p['id']]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
print(len(P))
