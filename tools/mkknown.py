"""writes known_findings.json (run by hand)"""
import json, subprocess
P = {'e9e5bb3': 'C02', 'f5e0dd4': 'C23', '1522468': 'C10', 'cc1d54c': 'C01', '388f64b': 'C03', 'd670050': 'C12', 'bc3d74f': 'C12',
     'b0be02c': 'C08', '1b5b1b9': 'C08', 'd4b25ad': 'C17', '4125bcb': 'C22', 'a2f9549': 'C19', 'cf02355': 'C19', '1394fdf': 'C19',
     '1ba3068': 'C19', '250a1f8': 'C06', 'f9e246b': 'C19', '168023d': 'C06', 'a7645e7': 'C06', 'ce267cb': 'C06', 'd3c8487': 'C06',
     '62f6b21': 'C07', '47f7e0c': 'C07', '3178d7c': 'C07', 'aea83fa': 'C07', 'b5d5c80': 'C04', '3c9f05f': 'C06', 'f9b62bb': 'C06'}
WHAT = {
 'e9e5bb3': 'build_toc listed a heading on the last line of an unclosed code block ("```\\n# a")',
 'f5e0dd4': 'build_toc(skip_lines=1) raised UnicodeDecodeError when a skipped line held undecodable bytes',
 '1522468': 'goldmark did not refuse list numbers above 999999999',
 'cc1d54c': '"# a # #" lost two closing sequences instead of one',
 '388f64b': 'a label of mixed blanks (space, NBSP, tab...) was not refused as empty',
 'd670050': 'get_atx_heading on several lines used the visibility of an earlier line',
 'bc3d74f': 'redcarpet ignored the header level limit',
 'b0be02c': 'redcarpet anchors kept the content of HTML tags and entities',
 '1b5b1b9': 'redcarpet hash anchors were computed on code points without the 64-bit wrap',
 'd4b25ad': 'with --newline-string \\r\\n or \\r in-place writing doubled the carriage returns and never compared equal',
 '4125bcb': 'in-place writing left the file without its TOC between two steps, and lost the permissions',
 'a2f9549': 'remove_emphasis crashed or hung on unclosed link labels ("[a][")',
 'cf02355': 'remove_emphasis raised IndexError on an unclosed link ("[a](")',
 '1394fdf': 'remove_emphasis raised IndexError on a destination ending with a backslash',
 '1ba3068': 'remove_emphasis raised on U+0100',
 '250a1f8': 'the flanking test used the wrong character before a delimiter run (multi-byte arithmetic on str)',
 'f9e246b': 'non-ASCII digits in a numeric entity crashed the entity scanner',
 '168023d': 'images were not recognised, so emphasis matched across them',
 'a7645e7': 'a run that closes and then opens emphasis ("*a**b*" forms) had the wrong characters removed',
 'ce267cb': 'link titles in parentheses and escaped characters in titles were scanned wrongly',
 'd3c8487': 'autolinks without a scheme were accepted',
 '62f6b21': 'HTML comments of one character or with ">" inside were not removed',
 '47f7e0c': 'declarations with lowercase or empty content and empty CDATA sections were not removed',
 '3178d7c': 'github closing tags with more than one space were not removed',
 'aea83fa': 'removing one HTML element could create and then remove another ("<<a>b>")',
 'b5d5c80': 'CDATA and declarations survived in anchors because the text was lower-cased first',
 '3c9f05f': 'underscore emphasis skipped an opener after a longer run (openers_bottom index)',
 'f9b62bb': 'emphasis was matched across the start of a link text',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--reverse'], capture_output=True, text=True).stdout.split()
out = {
 'known': [
  {'id': 'C17-redcarpet-first-heading-deep', 'property': 'C17',
   'what': 'redcarpet TOC whose first visible heading is deeper than level 1 starts with four or more spaces, which generic._detect_toc_list '
           'does not recognise (at most three, fixed by the test-suite): the TOC is inserted again instead of replaced'},
  {'id': 'C17-no-links-first-entry-blank', 'property': 'C17',
   'what': 'TOC without links whose first entry has a blank text or one that starts with a tab or vertical tab is not recognised by '
           'generic._detect_toc_list as a TOC: it is inserted again instead of replaced'},
 ],
 'fixed': ['fixed: property=%s %s %s' % (P[h], h, WHAT[h]) for h in log if h in P],
}
assert len(out['fixed']) == len(P)
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
