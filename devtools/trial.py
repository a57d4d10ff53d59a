#!/usr/bin/env python3
"""trial.py DEFS.py OUT.res NSLOTS JOBS [ID...]: apply each bug of DEFS.BUGS to a private copy of /repo (mount namespace), build, run the
tests, then the check of its property (or of 'props'); one JSON line per bug in OUT.res."""
import sys, os, json, subprocess, threading, queue, shutil, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import INNER


def main(defs, out, nslots, jobs, ids):
    spec = importlib.util.spec_from_file_location('defs', defs)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    base = '/tmp/tr_%d' % os.getpid()
    q = queue.Queue()
    for b in m.BUGS:
        if ids and b['id'] not in ids:
            continue
        for f, o, n in b['edits']:
            t = open('/repo/' + f).read()
            c = b.get('count', 1)
            if t.count(o) != c:
                print('BAD EDIT', b['id'], f, t.count(o))
                break
        else:
            q.put(b)
    lock = threading.Lock()

    def slot(k):
        d = '%s/s%d' % (base, k)
        os.makedirs(d + '/tmp')
        for a, b in (('/repo', 'repo'), ('/opt/dt-build', 'dtbuild'), ('/verif', 'verif')):
            subprocess.run(['cp', '-a', a, d + '/' + b], check=True)
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            keep = {}
            for f, o, n in b['edits']:
                p = d + '/repo/' + f
                t = open(p).read()
                keep.setdefault(p, t)
                open(p, 'w').write(t.replace(o, n))
            shutil.rmtree(d + '/tmp', ignore_errors=True)
            os.makedirs(d + '/tmp')
            props = b.get('props') or [b['property']]
            try:
                p = subprocess.run(['unshare', '-m', '--kill-child', '-p', '-f', '--mount-proc', 'bash', '-c', INNER % dict(slot=d, jobs=jobs, props=' '.join(props))], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=3600)
                r = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
                res = r[-1][7:] if r else 'error ' + p.stdout[-300:]
                if res.startswith('nobuild'):
                    res += ' ' + open(d + '/tmp/build.log').read()[-300:]
            except subprocess.TimeoutExpired:
                res = 'timeout'
            for p, t in keep.items():
                open(p, 'w').write(t)
            with lock, open(out, 'a') as f:
                f.write(json.dumps(dict(id=b['id'], property=b['property'], result=res)) + '\n')
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(nslots)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)


main(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:])
