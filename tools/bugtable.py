#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(V, 'tools', 'first_missed.txt'))
                   .read().split())
HEAD = '## Planted bugs'
text = open(os.path.join(V, 'DESIGN.md')).read()
text = text[:text.index(HEAD)] + HEAD + '''

Every change below was written from the text of a property, breaks it while
the tests pass, and was confirmed by its demonstration. All are caught by the
quick check of the property they break (seed 1); those marked `*` were missed
at first, and the workload or the monitor was extended for the class of change
they stand for.

| change | caught by | needs | breaks |
|---|---|---|---|
'''
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    text += '| %s%s | %s | %s | %s |\n' % (
        i, ' `*`' if FIRST_MISSED & {i, i.split('_')[0]} else '', m['property'],
        m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
