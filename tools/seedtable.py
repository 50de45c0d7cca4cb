"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read(); head = '## Planted changes\n'; t = t[:t.index(head) + len(head)]
MISSED = dict(l.split(None, 1) for l in open(V + '/tools/seed_notes.txt') if l.strip()) if os.path.exists(V + '/tools/seed_notes.txt') else {}
t += '\nEach was written from the text of its property, confirmed with its demonstration, and is caught by the check of that property at quick tier unless noted.\n\n| change | check | what it breaks | needs | note |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    t += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(i, '').strip())
open(V + '/DESIGN.md', 'w').write(t)
