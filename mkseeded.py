#!/usr/bin/env python3
"""Writes seeded/<id>/ from seededdefs/*.py: the change (as a diff against /repo's HEAD), its demonstration and meta.json.
   usage: mkseeded.py [ID...]"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
DEMO = '''#!/bin/bash
# exits 0 when the property holds, non-zero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
cd "$scratch"
export PYTHONPATH="$PYTHONPATH:$here"
timeout 200 /opt/venv/bin/python "$here/demo.py" > out.txt 2>&1
rc=$?
grep -a -E "BROKEN|Error|demonstration" out.txt | tail -5
exit $rc
'''


def main():
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(HERE, 'seededdefs', '*.py'))):
        for b in runpy.run_path(f)['BUGS']:
            if 'demo' not in b or want and b['id'] not in want:
                continue
            tmp = tempfile.mkdtemp(prefix='seed')
            subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', tmp + '/w'])
            try:
                for path, old, new in b['edits']:
                    p = os.path.join(tmp, 'w', path)
                    s = open(p).read()
                    k = b.get('count', {}).get(path, 1)
                    assert s.count(old) == k, (b['id'], path, s.count(old), old)
                    open(p, 'w').write(s.replace(old, new))
                diff = subprocess.check_output(['git', '-C', tmp + '/w', 'diff'], text=True)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            d = os.path.join(HERE, 'seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip())
            shutil.copy(os.path.join(HERE, 'seedlib_mini.py'), d + '/mini.py')
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            print('wrote', b['id'])


main()
