"""Faults put into otherwise valid runs: wrong input and runaway particles have to end in an error, the same run without the fault must not."""
import json
import os
import subprocess
import sys
import traceback
import numpy as np
from world import World


def tried(act):
    try:
        return 'ok', act()
    except SystemExit as e:
        return ('ok', None) if e.code in (None, 0) else ('error', 'exit: %s' % str(e)[:200])
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, str(e)[-200:])


def apart(case, m=None):
    """the same in a process of its own: the compiled modules report some errors by ending the process"""
    code = ('import sys, json, os; sys.path.insert(0, %r); import dt_pybind11_bridge, dolfin; dolfin.set_log_level(50); '
            'from props import c20; os._exit(c20.child(json.loads(sys.argv[1]), json.loads(sys.argv[2])))' % os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        r = subprocess.run([sys.executable, '-c', code, json.dumps(case), json.dumps(m)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        return 'crash', 'no end within 300 s'
    if r.returncode < 0:
        return 'crash', 'signal %d' % -r.returncode
    if r.returncode == READY:
        return 'ok', None
    if r.returncode in (REPORTED, 1):
        return 'error', 'status %d' % r.returncode
    raise RuntimeError('the process of its own ended with status %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[-1500:]))


READY, REPORTED = 78, 77


def child(case, m):
    try:
        if case['what'] == 'limit':
            W = populated(case)[0]
            W.ctrl.MAX_FACET_CROSS_COUNT = m
            act = W.advance
        else:
            W = without(case)[0]
            act = lambda: (W.bcs(), W.advance())    # noqa
    except BaseException:
        traceback.print_exc()
        return 99                   # the valid part of the run did not work
    return READY if tried(act)[0] == 'ok' else REPORTED


def judge(R, got, want, key, what):
    """want: 'error' or 'ok'"""
    R.count('refusals_expected' if want == 'error' else 'acceptances_expected')
    if want == 'error':
        if got[0] == 'ok':
            R.check(False, 'carried-on:' + key, '%s: no error was reported' % what)
        else:
            R.check(got[0] == 'error', 'not-reported:' + key, lambda: '%s: %s' % (what, got[1]))
            R.check(not str(got[1]).startswith(('NameError', 'UnboundLocalError')), 'broken-report:' + key, lambda: '%s: the report itself failed: %s' % (what, got[1]))
    else:
        R.check(got[0] == 'ok', 'refused-valid:' + key, lambda: '%s is valid and was refused: %s' % (what, got[1]))


# ------------------------------------------------------------------ particles that cross too many facets
def populated(case):
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 7)
    for sn in W.names:
        W.add(sn, W.new_particles(sn, int(rng.integers(1, case['n'] + 1)), rng))
    W.locate()
    return W, rng


def limit(case, R):
    W, rng = populated(case)
    counts = []
    for sn in W.names:
        for p in W.snapshot(sn):
            t = W.predict(sn, p)
            if t['delicate'] or t['fate'] not in ('alive', 'deleted'):
                R.count('delicate_worlds')
                return
            counts.append(t['crossings'])
    most = max(counts)
    R.count('worlds_with_crossings', most > 0)
    tries = {most, max(most - 1, 0), int(rng.integers(0, most + 2))}
    for m in sorted(tries):
        if most > m and case['engine'] == 'cpp':
            got = apart(case, m)
        else:
            X = populated(case)[0]
            X.ctrl.MAX_FACET_CROSS_COUNT = m
            got = tried(X.advance)
        R.sig('limit', case['engine'], case['coord'], case.get('older', 0), '+'.join(case['species']), (m > most) - (m < most), min(most, 9))
        R.count('exact_limits', m == most and most > 0)
        R.count('one_too_many', m == most - 1)
        judge(R, got, 'error' if most > m else 'ok', 'crossing-limit',
              '%s %s: a step in which the particles cross up to %d facets, with MAX_FACET_CROSS_COUNT = %d' % (case['engine'], case['coord'], most, m))


# ------------------------------------------------------------------ boundaries for which the user gave no function
def without(case):
    W = World(case)                     # complete, and accepted
    rng = np.random.default_rng(case['seed'] + 7)
    b, sn = list(W.expect)[int(rng.integers(0, len(W.expect)))]
    gone = [n for n in ('bc_at_%s_for_%s' % (b, sn), 'default_bc_at_' + b, 'default_bc') if n in W.fns]
    for n in gone:
        del W.fns[n]
    lst = W.new_particles(sn, case['n'], rng)
    W.add(sn, lst)
    W.locate()
    return W, b, sn, len(gone)


def nofunction(case, R):
    W, b, sn, gone = without(case)
    R.count('acceptances_expected')
    tag = W.bdict[b]
    # does one of the particles come to the boundary that has no function?
    meets, unsure = False, False
    for p in W.snapshot(sn):
        def react(f):
            t = W.tag[f]
            if t == 0:
                return 'none'
            if t == tag:
                return 'stop'
            for n in ('bc_at_%s_for_%s' % (W.inv[t], sn), 'default_bc_at_' + W.inv[t], 'default_bc'):
                if n in W.fns:
                    return W.fns[n]
            return 'stop'
        x = np.array([p[c] for c in W.pos], float)
        u = np.array([p[k] for k in W.un], float) + W.kick(sn, x, int(p['cell_index']))
        t = W.geo.trace(x, u * W.ctrl.dt, react)
        unsure |= t['delicate'] and t['fate'] != 'escaped'
        meets |= any(e['kind'] == 'stop' for e in t['events'])

    if case['engine'] == 'cpp':
        # the compiled table of functions has to be complete
        got = apart(case)
        what = 'cpp: there is no function for %s at the boundary %s' % (sn, b)
    elif meets and not unsure:
        got = tried(lambda: (W.bcs(), W.advance()))
        what = 'py: a particle of %s crosses the boundary %s, for which there is no function' % (sn, b)
    else:
        return
    R.sig('no-function', case['engine'], case['coord'], b == 'inner', gone)
    R.count('missing_functions')
    judge(R, got, 'error', 'no-boundary-function', what)


# ------------------------------------------------------------------ incomplete and unknown input
def config(case, R):
    fault = case['fault']
    rng = np.random.default_rng(case['seed'] + 7)
    word = str(rng.choice(['', 'cartesian', 'Cartesian_xy', 'spherical', 'xyz', 'cartesian_xyz ', 'cylindrical_rz', 'Unknown']))
    R.sig('config', fault, case['engine'], case['coord'])
    W = World(case)
    PM, DM, P, ctrl = W.PM, W.DM, W.P, W.ctrl
    import RecordedData_Module as RD

    def particle_input(**k):
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = case['coord']
        pin.force_components = W.pos[:W.gdim]
        pin.force_precision = np.float64
        pin.use_cpp_integrators = case['engine'] == 'cpp'
        pin.particle_species = tuple(PM.ParticleSpecies_C(n, W.q[n], W.m[n], W.kind[n]) for n in W.names)
        pin.__dict__.update(k)
        return pin

    def both(good, bad, what):
        """good() is accepted, bad() is not"""
        judge(R, tried(good), 'ok', fault, what[0])
        judge(R, tried(bad), 'error', fault, what[1])

    if fault in ('coordinates', 'no-coordinates', 'no-engine'):
        k = {'coordinates': dict(coordinate_system=word), 'no-coordinates': dict(coordinate_system=None), 'no-engine': dict(use_cpp_integrators=None)}[fault]
        both(lambda: PM.Particle_C(particle_input()), lambda: PM.Particle_C(particle_input(**k)), ('a complete ParticleInput_C', 'a ParticleInput_C with %r' % k))
    elif fault == 'distribution':
        sn = W.names[int(rng.integers(0, len(W.names)))]
        lst = W.new_particles(sn, 3, rng)

        class U:
            pass
        setattr(U, sn, staticmethod(lambda type: (len(lst), lst)))
        P.user_particles_class = U

        def init(t):
            P.initial_particles_dict = {'some': ({'species_name': sn, 'initial_distribution_type': t},)}
            P.initialize_particles({s: False for s in W.names})
        bad = str(rng.choice(['Listed', 'list', 'functional', 'function', '', 'particle_file']))
        both(lambda: init('listed'), lambda: init(bad), ("initial_distribution_type = 'listed'", 'initial_distribution_type = %r' % bad))
    elif fault == 'mesh-coordinates':
        m = W.pm.mesh
        ok = '1D-spherical-radial' if case['coord'] == 'spherical_r' else 'Cartesian'
        bad = None if rng.random() < 0.4 else str(rng.choice(['cartesian', 'spherical', '1D', '', 'Cylindrical']))

        def make(c):
            M = DM.Mesh_C(Mesh=m, coordinate_system=c, compute_tree=True)
            M.compute_cell_volume_dict()
        both(lambda: make(ok), lambda: make(bad), ('coordinate_system = %r for a Mesh_C' % ok, 'coordinate_system = %r for a Mesh_C whose cell volumes are asked for' % bad))
    elif fault == 'no-mesh':
        both(lambda: P.initialize_particle_mesh(W.pm), lambda: P.initialize_particle_mesh(None), ('initialize_particle_mesh(mesh)', 'initialize_particle_mesh(None)'))
        F = DM.Field_C(W.pm, element_type='CG', element_degree=1, field_type='scalar')
        D = {s: DM.Field_C(W.pm, element_type='CG', element_degree=1, field_type='scalar') for s in W.names}

        def charge(m):
            P.pmesh_M = m
            P.accumulate_charge_density_from_particles(D, F)
        both(lambda: charge(W.pm), lambda: charge(None), ('a charge density with a particle mesh', 'a charge density without a particle mesh'))
    elif fault in ('no-output-file', 'attribute'):
        ctrl.title, ctrl.author = 't', 'a'
        names = list(P.particle_dtype.names) + ['species_index']

        def check(att):
            ctrl.particle_output_attributes = tuple(att)
            P.check_particle_output_parameters(ctrl)
        some = [str(a) for a in rng.permutation(names)[:int(rng.integers(1, len(names) + 1))]]
        bad = str(rng.choice(['X', 'vx', 'mass', 'species', 'unique_id', 'w', 'cell', 'index']))
        wrong = list(some)
        wrong.insert(int(rng.integers(0, len(wrong) + 1)), bad)
        both(lambda: check(some), lambda: check(wrong), ('output of %r' % some, 'output of %r, when a particle has %r' % (wrong, names)))

        def opened(f):
            ctrl.particle_output_file = f
            P.initialize_particle_output_file(ctrl)
            P.particle_output_handle.close()
        both(lambda: opened(os.path.join(os.getcwd(), 'out.h5part')), lambda: opened(None), ('a named output file', 'an output file without a name'))
    elif fault in ('trajectory-files', 'dynamics'):
        W.enable_trajectories(5, None, 3)
        T = P.traj_T
        if fault == 'trajectory-files':
            def make(v):
                ctrl.write_trajectory_files = v
                tin = RD.TrajectoryInput_C()
                tin.max_points, tin.extra_points, tin.charged_dict, tin.neutral_dict = None, 3, T.charged_dict, T.neutral_dict
                RD.Trajectory_C(tin, ctrl, P.charged_species, P.neutral_species, {s: 0 for s in W.names}, P.mass, P.charge)
            v = bool(rng.random() < 0.5)
            both(lambda: make(v), lambda: make(None), ('write_trajectory_files = %r' % v, 'write_trajectory_files = None'))
        else:
            sn = W.names[int(rng.integers(0, len(W.names)))]
            bad = str(rng.choice(['Charged', 'none', '', 'magnetized', 'ion']))
            both(lambda: T.create_trajectory(sn, 0, W.kind[sn], unique_id_int=3), lambda: T.create_trajectory(sn, 0, bad, unique_id_int=3),
                 ('a trajectory for a %s particle' % W.kind[sn], 'a trajectory for a particle with dynamics %r' % bad))
    elif fault == 'no-list':
        # a species without a list of particles
        sn = W.names[int(rng.integers(0, len(W.names)))]
        lst = W.new_particles(sn, 2, rng)

        class G:
            pass

        class B:
            pass
        setattr(G, sn, staticmethod(lambda type: (len(lst), lst)))
        setattr(B, 'not_' + sn, staticmethod(lambda type: (len(lst), lst)))

        def create(c):
            P.user_particles_class = c
            P.create_from_list(sn)
        both(lambda: create(G), lambda: create(B), ('a list of particles for %s' % sn, 'creation of %s from a list that the user did not give' % sn))
    elif fault == 'empty-region':
        W.pm.compute_cell_volume_dict()
        lo, hi = W.geo.X.min(axis=0), W.geo.X.max(axis=0)
        k = int(rng.integers(0, W.gdim))
        off = np.zeros(W.gdim)
        off[k] = float(rng.choice([-1, 1])) * (hi[k] - lo[k]) * rng.uniform(1.1, 5)
        both(lambda: DM.RectangularRegion_C(W.pm, lo, hi), lambda: DM.RectangularRegion_C(W.pm, lo + off, hi + off), ('a region with cells', 'a region without cells'))
    else:
        raise RuntimeError('unknown fault ' + fault)
    R.count('faults_' + fault)


def run(case, R):
    if case['what'] == 'limit':
        return limit(case, R)
    if case['what'] == 'nofunction':
        return nofunction(case, R)
    config(case, R)
