#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md from seeded/ and tools/mutants/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | caught by | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m.get('caught_by', m['property'])} | {m['what_it_breaks'][:160]} |")
rows += ['', '| list | breaking edits (caught by the properties named in it) | harmless edits (quiet) |', '|---|---|---|']
for f in sorted(glob.glob(V + '/tools/mutants/C*.py')):
    ns = {}
    exec(open(f).read(), ns)
    ms = ns['MUTS']
    rows.append(f"| {os.path.basename(f)[:-3]} | {sum(m[0] == 'bad' for m in ms)} | {sum(m[0] == 'same' for m in ms)} |")
p = V + '/DESIGN.md'
s = open(p).read()
a = s.index('<!-- tables -->') if '<!-- tables -->' in s else s.index('@@TABLE@@')
open(p, 'w').write(s[:a] + '<!-- tables -->\n' + '\n'.join(rows) + '\n')
