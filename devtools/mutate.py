"""Development aid (not a check): mutation runs against the checks, in private mount namespaces.

mutate.py gen OUT.json [--seed N] [--per K]     mutants of the anchored code
mutate.py run MUTANTS.json RESULTS.jsonl SLOTS  runs them: build, stable tests, checks
"""
import ast, json, os, random, re, subprocess, sys, threading, queue, shutil

REPO = '/repo'
PY = {  # file -> [(function or Class.function regex, properties)]
 'Particle_Module.py': [
  ('initialize_particles|create_from_list|add_more_particles|create_maxwellian_particles', ['C15', 'C07']),
  ('get_species_number|get_species_particle_count|get_total_particle_count|get_species_KE|record_history_data', ['C14']),
  ('compute_mesh_cell_indices', ['C03']), ('initialize_particle_mesh', ['C03', 'C08']),
  ('accumulate_number_density|accumulate_charge_density_from_particles|set_number_density', ['C08']),
  ('move_particles_in_electrostatic_field|advance_charged_species_in_E_field|advance_neutral_species|advance_charged_particles_in_E_field|advance_neutral_particles', ['C04', 'C03', 'C06', 'C02', 'C07', 'C05']),
  ('advance_charged_species_in_uniform_fields', ['C04', 'C02']),
  ('update_trajectory_particleId|remove_trajectory_particleId|record_trajectory_datum|record_trajectory_data', ['C07']),
  ('check_particle_output_parameters|initialize_particle_output_file|write_particles_to_file', ['C13']),
  ('initialize_particle_integration', ['C04', 'C05', 'C07']),
  ('ParticleMeshBoundaryConditions_C.__init__', ['C06']), ('Particle_C.__init__', ['C02', 'C07', 'C14'])],
 'RecordedData_Module.py': [('.*', ['C07', 'C14'])],
 'SegmentedArrayPair_Module.py': [('.*', ['C01', 'C02'])],
 'Dolfin_Module.py': [
  ('Mesh_C.*', ['C11', 'C17', 'C10']), ('Field_C.*', ['C09', 'C08', 'C17']), ('.*Solve.*', ['C12']),
  ('CellSet_C.*|.*Region.*|WholeMesh.*', ['C17', 'C15']), ('.*', ['C12', 'C17', 'C09'])],
 'UserMesh_y_Fields_FE2D_Module.py': [('.*', ['C18'])],
 'UserMesh_y_Fields_FE_XYZ_Module.py': [('.*', ['C18'])],
 'UserMesh_y_Fields_Spherical1D_Module.py': [('.*', ['C18', 'C12'])],
}
SKIP = r'create_from_functions|accumulate_number_density_CPP|move_particles_in_electrostatic_potential|record_trajectory_datum_old|plot|print|__str__|compute_cell_indices'
CPP = {
 'SegmentedArrayPair.h': ['C01', 'C16', 'C02'], 'Pstruct.h': ['C01', 'C04', 'C05', 'C02', 'C16'], 'MeshEntityArrays.cpp': ['C11', 'C05', 'C16'],
 'dolfin_functions.cpp': ['C10', 'C08', 'C09', 'C05', 'C16'], 'dolfin_functions_solib.cpp': ['C10', 'C08', 'C09', 'C16'],
 'advance_charged_species_in_E_field_cartesian_x.cpp': ['C05', 'C04', 'C07', 'C06', 'C16'],
 'advance_charged_species_in_E_field_cartesian_xy.cpp': ['C05', 'C04', 'C07', 'C06', 'C16'],
 'advance_charged_species_in_E_field_spherical_r.cpp': ['C05', 'C04', 'C07', 'C06', 'C16'],
 'advance_charged_species_in_uniform_fields_cartesian_xyz.cpp': ['C04', 'C02', 'C16'],
 'advance_neutral_species_cartesian_xy.cpp': ['C05', 'C04', 'C07', 'C06', 'C16'], 'advance_neutral_species_cartesian_xyz.cpp': ['C05', 'C04', 'C07', 'C06', 'C16'],
 'ParticleMeshBoundaryConditions.h': ['C06', 'C05'], 'particle.h': ['C05', 'C04', 'C07'], 'MeshEntityArrays.h': ['C11'], 'mesh_entity_arrays_solib.cpp': ['C11'],
 'segmented_array_pair_solib.cpp': ['C01'],
}


def pymutants(f, rng):
    src = open(os.path.join(REPO, f)).read()
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    tree = ast.parse(src)
    out = []

    def add(func, props, a, b, new, kind, ln):
        out.append(dict(file=f, func=func, props=props, a=a, b=b, new=new, kind=kind, line=ln, old=raw[a:b].decode()))

    def between(n1, n2, table, func, props, kind):
        a, b = off(n1.end_lineno, n1.end_col_offset), off(n2.lineno, n2.col_offset)
        t = raw[a:b].decode()
        for o, n in table:
            if t.strip().strip('()').strip() == o:
                add(func, props, a, b, t.replace(o, n), kind, n1.lineno)
                return

    def visit(fn, name, props):
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                between(n.left, n.comparators[0], [('<=', '<'), ('>=', '>'), ('<', '<='), ('>', '>='), ('==', '!='), ('!=', '=='), ('is not', 'is'), ('is', 'is not'), ('not in', 'in'), ('in', 'not in')], name, props, 'cmp')
            elif isinstance(n, ast.BinOp):
                between(n.left, n.right, [('+', '-'), ('-', '+'), ('*', '/'), ('/', '*'), ('%', '+'), ('**', '*'), ('&', '|'), ('|', '&'), ('//', '*')], name, props, 'arith')
            elif isinstance(n, ast.BoolOp):
                between(n.values[0], n.values[1], [('and', 'or'), ('or', 'and')], name, props, 'bool')
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
                v = n.value
                new = str(not v) if isinstance(v, bool) else (str(v + 1) if isinstance(v, int) else repr(v * 1.5 + 0.25))
                add(name, props, a, b, new, 'const', n.lineno)
            elif isinstance(n, ast.Constant) and n.value in ('in', 'out'):
                a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
                add(name, props, a, b, repr({'in': 'out', 'out': 'in'}[n.value]), 'inout', n.lineno)
            elif isinstance(n, (ast.If, ast.While)):
                a, b = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
                if isinstance(n, ast.If):
                    add(name, props, a, b, 'not (' + raw[a:b].decode() + ')', 'negate', n.lineno)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
                t = raw[a:b].decode()
                if t.startswith(('print', 'fncName', 'errorMsg', 'sys.')) or 'print' in t[:14]:
                    continue
                add(name, props, a, b, 'pass', 'delete', n.lineno)
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args[0], n.args[1]
                a, b = off(x.lineno, x.col_offset), off(y.end_lineno, y.end_col_offset)
                xs, ys = ast.get_source_segment(src, x), ast.get_source_segment(src, y)
                if xs != ys and 'print' not in ast.get_source_segment(src, n.func):
                    add(name, props, a, b, ys + ', ' + xs, 'swapargs', n.lineno)

    def top(node, prefix):
        for n in node.body:
            if isinstance(n, ast.ClassDef):
                top(n, n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                name = prefix + n.name
                if re.search(SKIP, name):
                    continue
                for pat, props in PY[f]:
                    if re.fullmatch('(%s)' % pat, name) or re.fullmatch('(%s)' % pat, n.name):
                        visit(n, name, props)
                        break
    top(tree, '')
    # nothing on lines that only print or report
    return [m for m in out if not re.search(r'\bprint|fncName|errorMsg|infoMsg|sys\.exit|raise |plot|\.format', lines[m['line'] - 1])]


def cppmutants(f, rng):
    src = open(os.path.join(REPO, 'cpp', f)).read()
    out, posn, incomment = [], 0, False
    for ln, l in enumerate(src.split('\n'), 1):
        code = re.sub(r'//.*', '', l)
        if '/*' in code:
            incomment = True
        if incomment:
            if '*/' in code:
                incomment = False
            posn += len(l) + 1
            continue
        if not re.search(r'#|std::cout|printf|assert|throw|\busing\b|template|std::string|py::class|\.def|include|cerr', code) and code.strip():
            def add(a, b, new, kind):
                out.append(dict(file='cpp/' + f, func='', props=CPP[f], a=posn + a, b=posn + b, new=new, kind=kind, line=ln, old=l[a:b]))
            for o, n in [(' <= ', ' < '), (' >= ', ' > '), (' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), ('*', '/'), ('/', '*'), (' && ', ' || '),
                         (' || ', ' && '), ('+=', '-='), ('-=', '+='), ('true', 'false'), ('false', 'true'), ('++', '--')]:
                for m in re.finditer(re.escape(o), code):
                    if o in '*/' and not re.search(r'[\w\)\]]\s?$', code[:m.start()]):
                        continue
                    if o == '*' and re.match(r'\s*[\w:<>]+\s*$', code[:m.start()]):
                        continue
                    if o in ('++',) and 'for' in code:
                        continue
                    add(m.start(), m.end(), n, 'op')
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
                add(m.start(), m.end(), str(int(m.group(1)) + 1), 'const')
            m = re.match(r'^(\s*)((?:[\w\.\[\]\(\)>-]|->)+\s*(?:[+\-*|&/]?=)(?!=).*;|continue;|[\w\.\->]+\([^;]*\);)\s*$', code)
            if m and not code.strip().startswith('return'):
                add(len(m.group(1)), len(code.rstrip()), ';', 'delete')
            m = re.match(r'^(.*\bif\s*)\((.*)\)\s*\{?\s*$', code)
            if m:
                add(m.start(2), m.end(2), '!(' + m.group(2) + ')', 'negate')
        posn += len(l) + 1
    return out


def gen(outf, seed, per, only=None):
    rng = random.Random(seed)
    ms = []
    for f in PY:
        if only and not re.search(only, f):
            continue
        m = pymutants(f, rng)
        rng.shuffle(m)
        k = int(per * len(m)) if per < 1 else int(per)
        ms += m[:k]
        print(f, len(m), min(k, len(m)))
    for f in CPP:
        if only and not re.search(only, f):
            continue
        m = cppmutants(f, rng)
        rng.shuffle(m)
        k = int(per * len(m)) if per < 1 else int(per)
        ms += m[:k]
        print(f, len(m), min(k, len(m)))
    rng.shuffle(ms)
    for i, m in enumerate(ms):
        m['id'] = '%d-%d' % (seed, i)
    json.dump(ms, open(outf, 'w'), indent=0)
    print(len(ms))


INNER = r'''
set -e
mount --bind %(slot)s/repo /repo
mount --bind %(slot)s/dtbuild /opt/dt-build
mount --bind %(slot)s/verif /verif
mount --bind %(slot)s/tmp /tmp
set +e
cd /verif
export VERIF_JOBS=%(jobs)d
if ! timeout 300 bash /opt/vp/build.sh >/tmp/build.log 2>&1; then echo RESULT nobuild; exit; fi
timeout 400 bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
lost=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def names(d):
    for k in ('passed','stable'):
        if k in d: return set(d[k]) if isinstance(d[k],list) else {t for t,v in d[k].items() if v in ('passed',True,'pass')}
    return set()
print(len(names(b)-names(r)))
P
)
if [ "$lost" != 0 ]; then echo RESULT tests $lost; exit; fi
for p in %(props)s; do
  timeout 880 python3 check.py $p >/tmp/c.log 2>&1; rc=$?
  if [ $rc = 1 ]; then echo RESULT caught $p "$(grep -a -m1 '^violated' /tmp/c.log | cut -c1-200)"; exit; fi
  if [ $rc != 0 ]; then echo RESULT noanswer $p "$(grep -a -A60 -E "NO-ANSWER|HARNESS" /tmp/c.log | grep -v frozen | tail -8 | cut -c1-200 | tr "\n" "@")"; exit; fi
done
echo RESULT survived
'''


def run(mf, rf, nslots, jobs):
    ms = json.load(open(mf))
    done = set()
    if os.path.exists(rf):
        done = {json.loads(l)['id'] for l in open(rf)}
    q = queue.Queue()
    for m in ms:
        if m['id'] not in done:
            q.put(m)
    lock = threading.Lock()
    base = '/tmp/mt'

    def slot(k):
        d = '%s/s%d' % (base, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/tmp')
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        subprocess.run(['cp', '-a', '/opt/dt-build', d + '/dtbuild'], check=True)
        subprocess.run(['cp', '-a', '/verif', d + '/verif'], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(d, 'repo', m['file'])
            orig = open(os.path.join(REPO, m['file']), 'rb').read() if False else open(path, 'rb').read()
            assert orig[m['a']:m['b']].decode() == m['old'], m
            open(path, 'wb').write(orig[:m['a']] + m['new'].encode() + orig[m['b']:])
            shutil.rmtree(d + '/tmp', ignore_errors=True)
            os.makedirs(d + '/tmp')
            try:
                p = subprocess.run(['unshare', '-m', '--kill-child', '-p', '-f', '--mount-proc', 'bash', '-c', INNER % dict(slot=d, jobs=jobs, props=' '.join(m['props']))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=3600)
                r = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
                res = r[-1][7:] if r else 'error ' + p.stdout[-300:]
            except subprocess.TimeoutExpired:
                res = 'timeout'
            open(path, 'wb').write(orig)
            with lock, open(rf, 'a') as f:
                f.write(json.dumps(dict(m, result=res)) + '\n')
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(nslots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else None)
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
