#!/usr/bin/env python3
"""seedns.py OUT.res NSLOTS JOBS [--nocheck] [ID...]: every planted change of seeded/ in a private copy of /repo (mount namespace): build, the demonstration must
exit 0; apply the change, build, run the stable tests, the demonstration must fail; then the check of its property."""
import sys, os, json, subprocess, threading, queue, shutil
INNER = r'''
set -e
mount --bind %(slot)s/repo /repo
mount --bind %(slot)s/dtbuild /opt/dt-build
mount --bind %(slot)s/verif /verif
mount --bind %(slot)s/tmp /tmp
mkdir /tmp/demo; cp /verif/seeded/%(id)s/{demo.sh,demo.py,mini.py} /tmp/demo/
set +e
cd /repo
export VERIF_JOBS=%(jobs)d
if ! timeout 300 bash /opt/vp/build.sh >/tmp/build.log 2>&1; then echo RESULT cleanbuild; exit; fi
if ! bash /tmp/demo/demo.sh >/tmp/demo0.log 2>&1; then echo "RESULT demo fails on clean: $(tail -3 /tmp/demo0.log | tr '\n' ' ' | cut -c1-300)"; exit; fi
git apply /verif/seeded/%(id)s/patch.diff || { echo RESULT noapply; exit; }
if ! timeout 300 bash /opt/vp/build.sh >/tmp/build.log 2>&1; then echo "RESULT nobuild $(grep -a -m2 error /tmp/build.log | cut -c1-300)"; git checkout -q -- .; exit; fi
if bash /tmp/demo/demo.sh >/tmp/demo1.log 2>&1; then echo RESULT demo passes with the change; git checkout -q -- .; exit; fi
timeout 400 bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
lost=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def names(d):
    for k in ('passed','stable'):
        if k in d: return set(d[k]) if isinstance(d[k],list) else {t for t,v in d[k].items() if v in ('passed',True,'pass')}
    return set()
print(len(names(b)-names(r)))
P
)
if [ "$lost" != 0 ]; then echo RESULT tests $lost; git checkout -q -- .; exit; fi
if [ "%(check)s" = 1 ]; then
cd /verif
timeout 880 python3 check.py %(prop)s >/tmp/c.log 2>&1; rc=$?
if [ $rc = 1 ]; then echo "RESULT caught $(grep -a -m1 '^violated' /tmp/c.log | cut -c1-160)"
elif [ $rc = 0 ]; then echo RESULT SURVIVED
else echo "RESULT noanswer $(grep -a -E 'NO-ANSWER|HARNESS' /tmp/c.log | head -2 | cut -c1-300)"; fi
else echo RESULT valid "$(tail -1 /tmp/demo1.log | cut -c1-200)"; fi
cd /repo; git checkout -q -- .
'''


def main():
    a = sys.argv[1:]
    check = '--nocheck' not in a
    a = [x for x in a if x != '--nocheck']
    out, nslots, jobs = a[0], int(a[1]), int(a[2])
    ids = a[3:] or sorted(os.listdir('/verif/seeded'))
    base = '/tmp/sn_%d' % os.getpid()
    q = queue.Queue()
    [q.put(i) for i in ids]
    lock = threading.Lock()

    def slot(k):
        d = '%s/s%d' % (base, k)
        os.makedirs(d + '/tmp')
        for s, t in (('/repo', 'repo'), ('/opt/dt-build', 'dtbuild'), ('/verif', 'verif')):
            subprocess.run(['cp', '-a', s, d + '/' + t], check=True)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            shutil.rmtree(d + '/tmp', ignore_errors=True)
            os.makedirs(d + '/tmp')
            prop = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
            try:
                p = subprocess.run(['unshare', '-m', '--kill-child', '-p', '-f', '--mount-proc', 'bash', '-c', INNER % dict(slot=d, jobs=jobs, id=i, prop=prop, check=int(check))],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3000)
                r = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
                res = r[-1][7:] if r else 'error ' + p.stdout[-300:]
            except subprocess.TimeoutExpired:
                res = 'timeout'
                subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            with lock, open(out, 'a') as f:
                f.write('%s %s: %s\n' % (i, prop, res))
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(nslots)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)


main()
