#!/usr/bin/env python3
"""blame.py [ID...]: which commit the lines a planted change removes come from (they must be the original repository's)."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(HERE + '/seeded')):
    f, n, out = None, 0, {}
    for l in open('%s/seeded/%s/patch.diff' % (HERE, i)):
        if l.startswith('--- '):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-'):
            c = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], text=True).split()[0].lstrip('^')[:7]
            out[c] = out.get(c, 0) + 1
            n += 1
        elif f and l.startswith(' '):
            n += 1
    print(i, out)
