"""worker.py PROPERTY TIER CASES.json OUT.jsonl : runs the cases one after another in this process."""
import json, os, sys, traceback, importlib, shutil, time


class Rec:
    """What the monitors of one case observed."""
    def __init__(self, case, tier):
        self.case, self.tier = case, tier
        self.counters, self.sigs, self.viol, self.errors, self.sample = {}, set(), [], [], None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def sig(self, *parts):
        self.sigs.add('|'.join(str(p) for p in parts))

    def violation(self, key, msg, detail=None):
        self.count('violations')
        if len(self.viol) < 20 and all(v['key'] != key for v in self.viol):
            self.viol.append({'key': key, 'msg': msg, 'detail': detail})

    def check(self, ok, key, msg, detail=None):
        self.count('assertions')
        if not ok:
            self.violation(key, msg() if callable(msg) else msg, detail)
        return ok


def linecov(d):
    """development aid (devtools/pycov.sh): the lines of /repo executed by this process, written to directory d"""
    mon, seen = sys.monitoring, set()
    mon.use_tool_id(3, 'linecov')

    def line(code, n):
        if code.co_filename.startswith('/repo/'):
            seen.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)

    def save():
        json.dump(sorted(seen), open(os.path.join(d, '%d.json' % os.getpid()), 'w'))
    return save


def main():
    prop, tier, cases_file, out = sys.argv[1:5]
    cases = json.load(open(cases_file))
    save = linecov(os.environ['DT_LINECOV']) if os.environ.get('DT_LINECOV') else None
    f = open(out, 'a')

    def emit(d):
        f.write(json.dumps(d, default=str) + '\n')
        f.flush()

    import dt_pybind11_bridge  # noqa: shares dolfin's pybind11 types with the modules
    import dolfin
    dolfin.set_log_level(50)
    mod = importlib.import_module('props.' + prop.lower())
    for i, case in enumerate(cases):
        r = Rec(case, tier)
        emit({'begin': i})
        old = os.getcwd()
        cwd = os.path.join(old, 'case%d' % i)
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        sys.stderr.write('CASE %s\n' % json.dumps(case))
        t0 = time.process_time()
        try:
            mod.run(case, r)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
            repo = [t for t in tb if t.filename.startswith('/repo/')]
            inner = tb[-1].filename if tb else ''
            if repo and not inner.startswith('/verif/'):
                r.violation('exception:%s:%s' % (type(e).__name__, repo[-1].name),
                            'a valid call sequence raised %s: %s' % (type(e).__name__, str(e)[:300]), txt[-4000:])
            elif isinstance(e, (TypeError, ValueError, IndexError, KeyError, AssertionError, ArithmeticError)):
                # the monitor could not interpret what the code under test returned
                r.violation('uninterpretable:%s:%s' % (type(e).__name__, tb[-1].name),
                            'the observed results do not have the documented form: %s: %s' % (type(e).__name__, str(e)[:300]), txt[-4000:])
            else:
                r.errors.append({'msg': txt[-4000:]})
        os.chdir(old)
        shutil.rmtree(cwd, ignore_errors=True)
        sys.stderr.flush()
        emit({'end': i, 'counters': r.counters, 'sigs': sorted(r.sigs), 'viol': r.viol, 'errors': r.errors, 'sample': r.sample, 'cpu': round(time.process_time() - t0, 2)})
    f.close()
    sys.stdout.flush()
    if save:
        save()
        return              # an orderly exit also writes the C++ coverage counters
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(99)
