""" rewrites the section on planted bugs of DESIGN.md """
import glob, json, os
MISSED = {'p06-seed-at-creation': 'P06 creates all runs before consuming them', 'p08-near-ties': 'alphabet with near ties',
          'p16-clear-flipped': 'sessions after clear', 'p23-stale-ellipsoid': 'sessions after clear',
          'p32-count-after-clear': 'sessions which are cleared halfway through the count',
          'p13-batch-with-known': 'second batches which mix known and new points',
          'p12-append-shared': 'values changed by the caller after logging'}
exec(open(os.path.join(os.path.dirname(__file__), 'missed.py')).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), 'missed.py')) else None
lines = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m, n = json.load(open(d + '/meta.json')), os.path.basename(d)
    lines.append('| {}{} | {} | {} | {} |'.format(n, ' *' if n in MISSED else '', m['property'], m['what_it_breaks'], m['needs']))
s = open('/verif/DESIGN.md').read()
a = s.index('<!-- seeds -->')
tail = '\n\nMissed at first (*), and what was strengthened:\n\n' + '\n'.join('* {}: {}'.format(k, v) for k, v in sorted(MISSED.items())) + '\n'
b = s.index('<!-- end of seeds -->')
open('/verif/DESIGN.md', 'w').write(s[:a] + '<!-- seeds -->\n' + '\n'.join(lines) + tail + s[b:])
