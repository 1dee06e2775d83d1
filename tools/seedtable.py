#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    files = sorted({l[6:].strip() for l in open(f'{root}/seeded/{d}/patch.diff', errors='replace') if l.startswith('+++ b/')})
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], ' '.join(os.path.basename(f) for f in files), m['needs'].replace('|', '/') + ': ' + m['what_it_breaks'].replace('|', '/')))
text = open(root + '/DESIGN.md').read()
head = text.split('<!-- seeds -->')[0]
open(root + '/DESIGN.md', 'w').write(head + '<!-- seeds -->\n| id | caught by | file | what it needs: what it breaks |\n|----|----|----|----|\n' + '\n'.join(rows) + '\n')
print(len(rows), 'rows')
