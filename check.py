#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--limit N]

Rebuilds what the property needs from /repo's working tree, runs its workloads in worker processes
under the property's monitors, writes evidence/<id>.json and decides:
  exit 0  held on everything explored (KNOWN-FINDING lines for listed findings)
  exit 1  'VIOLATION property=<id> replay=<path>'
  exit 2  no answer (the modules do not build, the harness itself failed, a monitor was never reached)
"""
import argparse, json, os, re, signal, subprocess, sys, tempfile, time, shutil, random

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import build as B
import importlib

PYTHON = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def worker_env(lib, variant, scratch):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': scratch,
         'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
         'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
         'OPENBLAS_NUM_THREADS': '1', 'OMPI_MCA_ess_singleton_isolated': '1',
         'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
         'TMPDIR': scratch, 'MALLOC_PERTURB_': '181', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
         'PYTHONPATH': ':'.join([lib, '/opt/vp/plugin', '/repo', os.path.join(HERE, 'harness')])}
    # compiled finite-element forms: a private cache that starts from the sandbox's own
    cache = os.path.join(B.BUILD, 'dijitso')
    if not os.path.isdir(cache):
        tmp = cache + '.%d' % os.getpid()
        if os.path.isdir('/opt/dt-build/dijitso'):
            shutil.copytree('/opt/dt-build/dijitso', tmp)
        else:
            os.makedirs(tmp)
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    e['DIJITSO_CACHE_DIR'] = cache
    if os.environ.get('DT_LINECOV'):
        e['DT_LINECOV'] = os.environ['DT_LINECOV']
    e['INSTANT_CACHE_DIR'] = cache
    if variant == 'asan':
        libs = [subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip()
                for n in ('libasan.so', 'libubsan.so', 'libstdc++.so')]
        e['LD_PRELOAD'] = ' '.join(libs)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:malloc_context_size=12:max_malloc_fill_size=1000000'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
    return e


def cpu_time(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return 0.0


class Worker:
    """One subprocess working through a list of cases; restarted behind a case that kills it."""
    n = 0

    def __init__(self, prop, tier, cases, env, scratch, cpu_limit):
        self.prop, self.tier, self.env, self.scratch, self.cpu_limit = prop, tier, env, scratch, cpu_limit
        self.cases = cases            # list of (index, case)
        self.pos = 0
        self.records, self.crashes = [], []
        self.start()

    def start(self):
        Worker.n += 1
        self.dir = os.path.join(self.scratch, 'w%d' % Worker.n)
        os.makedirs(self.dir)
        cf = os.path.join(self.dir, 'cases.json')
        json.dump([c for _, c in self.cases[self.pos:]], open(cf, 'w'))
        self.out = os.path.join(self.dir, 'out.jsonl')
        open(self.out, 'w').close()
        self.log = os.path.join(self.dir, 'log.txt')
        with open(self.log, 'wb') as lf:
            self.p = subprocess.Popen([PYTHON, os.path.join(HERE, 'harness', 'worker.py'), self.prop, self.tier, cf, self.out],
                                      cwd=self.dir, env=self.env, stdin=subprocess.DEVNULL, stdout=lf,
                                      stderr=subprocess.STDOUT, start_new_session=True)
        self.seen = 0
        self.off = 0
        self.begun = None
        self.cpu0 = 0.0
        self.base = self.pos

    def read(self):
        if not os.path.exists(self.out):
            return
        with open(self.out) as f:
            f.seek(self.off)
            for line in f:
                if not line.endswith('\n'):
                    break
                self.off += len(line.encode())
                r = json.loads(line)
                if 'begin' in r:
                    self.begun = r['begin']
                    self.cpu0 = cpu_time(self.p.pid)
                elif 'end' in r:
                    i = self.base + r['end']
                    r['index'], r['case'] = self.cases[i]
                    self.records.append(r)
                    self.pos = i + 1
                    self.begun = None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self, n=12000):
        try:
            with open(self.log, 'rb') as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - n))
                return f.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def poll(self):
        """True while there is work left."""
        rc = self.p.poll()
        self.read()
        if rc is None:
            if self.begun is not None and cpu_time(self.p.pid) - self.cpu0 > self.cpu_limit:
                self.kill()
                self.read()
                self.crash('no progress: the case used more than %d s of CPU time' % self.cpu_limit, 'hang', '')
                return self.next()
            return True
        if self.pos < len(self.cases):
            if rc == 99 or self.begun is None and self.pos == self.base and not self.records_since():
                # died before any case: import or start-up failure
                self.crash('worker failed outside the code under test, exit status %s' % rc, 'startup', self.tail())
                return self.next()
            self.crash('process ended inside a valid call sequence, exit status %s' % rc, classify(rc, self.tail()), self.tail())
            return self.next()
        return False

    def records_since(self):
        return self.pos > self.base

    def crash(self, msg, key, tail):
        i, c = self.cases[self.pos]
        self.crashes.append(dict(index=i, case=c, msg=msg, key=key, tail=tail))
        self.pos += 1

    def next(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.pos < len(self.cases) and len(self.crashes) < 12:
            self.start()
            return True
        return False


def classify(rc, tail):
    m = re.search(r'SUMMARY: \w*Sanitizer: (\S+) (\S+) in (\S+)', tail) or re.search(r'SUMMARY: \w*Sanitizer: (\S+) (\S+)', tail)
    if m:
        return 'san:' + ':'.join(os.path.basename(x) for x in m.groups())
    m = re.search(r"(\S+\.(?:h|cpp)):\d+: (?:.*?)Assertion `(.*?)' failed", tail)
    if m:
        return 'assert:%s:%s' % (os.path.basename(m.group(1)), m.group(2))
    if rc is not None and rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%s' % rc


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--limit', type=int)
    ap.add_argument('--only')
    ap.add_argument('--variant')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    mod = importlib.import_module('plans').PLANS[prop]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try:
        rc = run(a, prop, mod, scratch, t0)
    except B.BuildError as e:
        print('NO-ANSWER property=%s: %s' % (prop, e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, prop, plan, scratch, t0):
    envs, missing = {}, []
    rp = json.load(open(a.replay)) if a.replay else None
    if rp and a.variant:
        rp['case']['variant'] = a.variant
    variants = [rp['case'].get('variant', plan.variants[0])] if rp else ([a.variant] if a.variant else plan.variants)
    for variant in variants:
        lib, miss = B.build(plan.modules, variant)
        envs[variant] = worker_env(lib, variant, scratch)
        missing += miss
    if missing:
        print('NOTE: monitoring boundary module(s) not buildable against this tree, their cases are skipped: %s' % missing)
    if a.replay:
        cases = [rp['case']]
    else:
        cases = plan.cases(a.tier, random.Random('%s-%s-%s' % (prop, a.tier, a.seed)))
        if a.only:
            cases = [c for c in cases if a.only in c['kind']]
        if a.limit:
            cases = cases[:a.limit]
        if a.variant:
            for c in cases:
                c['variant'] = a.variant
    if missing:
        cases = [c for c in cases if not c.get('vmon')]
    cases = list(enumerate(cases))
    budget = plan.budget[a.tier]
    by_variant = {}
    for i, c in cases:
        by_variant.setdefault(c.get('variant', plan.variants[0]), []).append((i, c))
    workers = []
    nv = max(1, NPROC // max(1, len(by_variant)))
    for v, cs in by_variant.items():
        k = min(nv, len(cs))
        for j in range(k):
            workers.append(Worker(prop, a.tier, cs[j::k], envs[v], scratch, plan.cpu_limit))
    live = list(workers)
    stopped = False
    while live:
        live = [w for w in live if w.poll()]
        if time.time() - t0 > budget:
            stopped = True
            for w in live:
                w.read()
                w.kill()
                w.read()
            break
        time.sleep(0.05)
    for w in workers:
        w.read()
    records = [r for w in workers for r in w.records]
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(records, key=lambda r: -r.get('cpu', 0))[:4]:
            print('SLOW %.1f s of CPU: %s' % (r.get('cpu', 0), json.dumps(r['case'])))
    crashes = [c for w in workers for c in w.crashes]
    return decide(a, prop, plan, records, crashes, len(cases), stopped, missing, t0)


def decide(a, prop, plan, records, crashes, ncases, stopped, missing, t0):
    viols, errors = [], []
    counters, sigs, samples = {}, set(), []
    for r in sorted(records, key=lambda r: r['index']):
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        sigs.update(r['sigs'])
        if r.get('sample') is not None and len(samples) < 6:
            samples.append(r['sample'])
        for v in r['viol']:
            viols.append(dict(v, case=r['case'], index=r['index']))
        for e in r['errors']:
            errors.append(dict(e, case=r['case']))
    for c in crashes:
        if c['key'] == 'startup':
            errors.append(dict(msg=c['msg'] + '\n' + c['tail'][-3000:], case=c['case']))
        elif c['key'] == 'hang' and not plan.hang_is_violation:
            errors.append(dict(msg=c['msg'], case=c['case']))
        else:
            viols.append(dict(key='crash:' + c['key'], msg=c['msg'], detail=c['tail'][-6000:], case=c['case'], index=c['index']))
    known = [k for k in known_findings() if k['property'] == prop and k['status'] == 'known']
    fresh, hit = [], {}
    for v in viols:
        for k in known:
            if re.fullmatch(k['key'], v['key']):
                hit.setdefault(k['key'], (k, v))
                break
        else:
            fresh.append(v)
    for key, (k, v) in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    level = plan.level
    reach = {k: counters.get(k, 0) for k in plan.required}
    unreached = [k for k, n in plan.required.items() if counters.get(k, 0) < n]
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': level,
          'coverage': {'evaluations': len(records) + len(crashes), 'distinct_nontrivial': len(sigs),
                       'rule': plan.rule, 'samples': samples or ['none'],
                       'planned_cases': ncases, 'stopped_by_time_budget': stopped,
                       'monitor_events': counters},
          'assumptions': plan.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.replay:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    if fresh:
        fresh.sort(key=lambda v: v['index'])
        seen = {}
        for v in fresh:
            seen.setdefault(v['key'], []).append(v)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for n, (key, vs) in enumerate(list(seen.items())[:10]):
            v = vs[0]
            path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9]+', '-', key)[:60]))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': key, 'msg': v['msg'], 'detail': v.get('detail'), 'case': v['case'],
                           'replay_cmd': 'python3 /verif/check.py %s --tier %s --replay %s' % (prop, a.tier, path)}, f, indent=1, default=str)
            print('violated (%d case(s)) [%s]: %s' % (len(vs), key, v['msg'][:600]))
            if v.get('detail'):
                print('  ' + str(v['detail'])[-1500:].replace('\n', '\n  '))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:5]:
            print('HARNESS-ERROR: %s' % e['msg'][-3000:])
        return 2
    if a.replay or a.limit or a.only:
        print('held on %d case(s): %s' % (len(records), counters))
        return 0
    if unreached and (stopped or missing):
        print('NOTE: %s; some monitors saw less than planned: %s' % ('stopped by the time budget' if stopped else 'cases skipped', unreached))
    elif unreached:
        print('NO-ANSWER property=%s: monitors not reached often enough: %s' % (prop, {k: (counters.get(k, 0), plan.required[k]) for k in unreached}))
        return 2
    print('OK property=%s held on %d executions (%d distinct non-trivial) in %.0f s; events: %s' %
          (prop, len(records), len(sigs), time.time() - t0, json.dumps(counters, sort_keys=True)))
    return 0


if __name__ == '__main__':
    main()
