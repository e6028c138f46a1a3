#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md (by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs\n'
s = open(V + '/DESIGN.md').read()
s = s[:s.index(HEAD)] if HEAD in s else s.rstrip('\n') + '\n\n'
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
s += HEAD + '''%d changes, each in seeded/, each caught by the quick check of its own property (`tools/runbugs.py` runs them).
Changes with "cache" in their name need a history of calls; those against C19 need one particular unusual input.
C22 has none that counts: the code it is about (a temporary copy and a rename) was added by a "fix:" commit, and changes to such
lines are not accepted; copying instead of renaming, removing before renaming and a temporary directory on another file system were tried by hand and are caught.

| change | caught by | needs | breaks |
|---|---|---|---|
''' % len(rows) + '\n'.join(rows) + '''

### Other changes tried
* Mutations of every operator, constant, comparison and statement that pass the tests: of 241 whose behaviour differs on a sampled input, 231 were caught
  when first run; of the other ten, three led to new templates (C21 wrong markers, C06 declarations), two only make calls slower, two change the version text,
  which no property is about, and three are probably equivalent (no differing input was found by hand).
* 35 refactorings that keep the behaviour (helpers extracted, loops rewritten, comprehensions, regular expressions instead of loops, other file handling,
  generators, dataclasses, f-strings, sorted imports, early returns): all checks quiet; a few ended incomplete (budget), which exits 0.
'''
open(V + '/DESIGN.md', 'w').write(s)
