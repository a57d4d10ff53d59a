#!/usr/bin/env python3
"""pycov.py DIR FILE...: lines of /repo's Python files that no workload recorded in DIR executed (DT_LINECOV=DIR python3 check.py ...)"""
import sys, os, json, ast
d = sys.argv[1]
seen = {}
for f in os.listdir(d):
    for p, n in json.load(open(os.path.join(d, f))):
        seen.setdefault(p, set()).add(n)
for f in sys.argv[2:]:
    p = '/repo/' + f
    src = open(p).read()
    stm = set()

    def codes(c):
        for _, _, ln in c.co_lines():
            if ln:
                stm.add(ln)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                codes(k)
    codes(compile(src, p, 'exec'))
    miss = sorted(stm - seen.get(p, set()))
    print(f, len(stm), 'lines', len(miss), 'missed')
    L = src.split('\n')
    for n in miss:
        t = L[n - 1].strip()
        if t and not t.startswith(('def ', 'class ', 'import', '"""', 'print(', 'fncName', 'errorMsg', 'raise', 'sys.exit')):
            print('  %d: %s' % (n, t[:130]))
