"""Particle output files: after every write the file on disk is read back and compared, group by group,
with snapshots taken at the writes; trajectory files are compared with the recorded points."""
import os
import shutil
import numpy as np
import h5py
from world import World


def text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


class File:
    """what one output file should hold"""
    def __init__(self, name):
        self.name, self.groups = name, []

    def check(self, W, R, when):
        # a copy of the bytes on disk: what a crash right now would leave behind
        if not R.check(os.path.exists(self.name), 'no-file', '%s: no output file' % when):
            return
        shutil.copy(self.name, 'copy.h5')
        try:
            h = h5py.File('copy.h5', 'r')
        except OSError as e:
            R.check(False, 'unreadable', '%s: the file on disk cannot be read: %s' % (when, e))
            return
        R.count('files_checked')
        names = sorted(h.keys())
        R.check(names == sorted('Step#%d' % i for i in range(len(self.groups))), 'groups', lambda: '%s: the file has groups %r after %d writes' % (when, names, len(self.groups)))
        # species table
        kinds = {}
        for k, v in h.attrs.items():
            if k.startswith('particle_type_'):
                kinds[text(v)] = int(k[len('particle_type_'):])
        R.check(sorted(kinds) == sorted(W.names) and len(set(kinds.values())) == len(kinds), 'species-table', lambda: 'species table %r' % kinds)
        R.check(int(h.attrs['NumParticleTypes:']) == len(W.names), 'species-number', 'NumParticleTypes is %r' % h.attrs['NumParticleTypes:'])
        for sn, i in kinds.items():
            R.check(float(h.attrs['mass_%d' % i]) == W.m.get(sn) and float(h.attrs['charge_%d' % i]) == W.q.get(sn), 'species-constants', 'mass or charge of %s is wrong in the file' % sn)
        R.check(text(h.attrs['Title:']) == W.ctrl.title and text(h.attrs['Author:']) == W.ctrl.author, 'title', 'title or author missing')
        for i, (t, attrs, snap) in enumerate(self.groups):
            if 'Step#%d' % i not in h:
                continue
            g = h['Step#%d' % i]
            R.count('groups_checked')
            R.check(float(g.attrs['TimeValue']) == t, 'time', lambda: 'write %d was at time %r, the file says %r' % (i, t, g.attrs['TimeValue']))
            if not R.check(sorted(g.keys()) == sorted(attrs), 'attributes', lambda: 'write %d holds %r, requested %r' % (i, sorted(g.keys()), sorted(attrs))):
                continue
            for a in attrs:
                d = np.array(g[a])
                if a == 'species_index':
                    want = np.concatenate([np.full(len(snap[sn]), kinds.get(sn, -1)) for sn in W.names])
                else:
                    want = np.concatenate([snap[sn][a] for sn in W.names])
                R.count('values_checked', len(want))
                if not R.check(d.shape == want.shape, 'length', lambda: '%s: write %d has %r values of %s for %d particles' % (when, i, d.shape, a, len(want))):
                    continue
                R.check(d.dtype.kind == want.dtype.kind or a == 'species_index' and d.dtype.kind in 'iu', 'type', lambda: '%s stored as %s' % (a, d.dtype))
                bad = np.nonzero(d != want)[0]
                R.check(not len(bad), 'values', lambda: '%s: write %d, attribute %s: particle %d has %r, the file says %r (%d of %d wrong)' % (
                    when, i, a, bad[0], want[bad[0]], d[bad[0]], len(bad), len(want)))
        h.close()


def trajectories(W, R):
    before = {k: [(d.tobytes(), i, n) for d, i, n in v] for k, v in W.trajectories().items()}
    T = W.P.traj_T
    for f in os.listdir('.'):
        if f.startswith('traj'):
            os.unlink(f)
    T.write_trajectories_to_files()
    after = {k: [(d.tobytes(), i, n) for d, i, n in v] for k, v in W.trajectories().items()}
    R.check(before == after, 'trajectories-altered', 'writing the trajectory files changed the recorded trajectories')
    files = sorted(f for f in os.listdir('.') if f.startswith('traj') and f.endswith('.h5part'))
    R.check(len(files) == len(before), 'trajectory-files', lambda: '%d files for %d trajectories: %r' % (len(files), len(before), files))
    for (sn, uid), v in W.trajectories().items():
        d, idx, n = v[0]
        name = 'traj-%s-uid%d.h5part' % (sn, uid)
        if not R.check(name in files, 'trajectory-file', lambda: 'no file %s among %r' % (name, files)):
            continue
        h = h5py.File(name, 'r')
        R.count('trajectory_files')
        R.check(sorted(h.keys()) == sorted('Step#%d' % i for i in range(n)), 'trajectory-groups', lambda: '%s has groups %r for %d points' % (name, sorted(h.keys()), n))
        kinds = [k for k in h.attrs if k.startswith('particle_type_')]
        R.check(len(kinds) == 1 and text(h.attrs[kinds[0]]) == sn, 'trajectory-species', lambda: '%s: species %r' % (name, [text(h.attrs[k]) for k in kinds]))
        if kinds:
            i = kinds[0][len('particle_type_'):]
            R.check(float(h.attrs['mass_' + i]) == W.m[sn] and float(h.attrs['charge_' + i]) == W.q[sn], 'trajectory-constants', 'mass or charge of %s wrong in %s' % (sn, name))
        for j in range(n):
            g = h.get('Step#%d' % j)
            if g is None:
                continue
            R.count('trajectory_points')
            R.check(float(g.attrs['TimeValue']) == float(d['t'][j]), 'trajectory-time', lambda: '%s point %d: time %r, recorded %r' % (name, j, g.attrs['TimeValue'], d['t'][j]))
            if R.check(sorted(g.keys()) == sorted(d.dtype.names), 'trajectory-names', lambda: '%s: %r' % (name, sorted(g.keys()))):
                for a in d.dtype.names:
                    got = np.array(g[a]).ravel()
                    R.check(len(got) == 1 and (got[0] == d[a][j] or got[0] != got[0] and d[a][j] != d[a][j]), 'trajectory-value', lambda: '%s point %d: %s is %r, recorded %r' % (name, j, a, got, d[a][j]))
        h.close()


def run(case, R):
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 7)
    P, ctrl = W.P, W.ctrl
    ctrl.title, ctrl.author = 'title %d' % case['seed'], 'monitor'
    traj = case.get('traj')
    if traj:
        W.enable_trajectories(case['steps'], extra=30)
        ctrl.title, ctrl.author = 'title %d' % case['seed'], 'monitor'
    for sn in W.names:
        n = int(rng.integers(0, 3 * case['L'] + 2)) if case['n'] is None else case['n']
        if case.get('exact'):
            n = case['L'] * int(rng.integers(1, 4))
        W.add(sn, W.new_particles(sn, n, rng, traj=0.4 if traj else 0.0))
    W.locate()
    names = list(P.particle_dtype.names) + ['species_index']
    files = []

    def pick():
        k = int(rng.integers(1, len(names) + 1))
        a = [str(v) for v in rng.choice(names, k, replace=False)]
        if rng.random() < 0.3:                      # what cannot be recorded is refused, what can is not
            ctrl.particle_output_attributes = a[:int(rng.integers(0, len(a)))] + [str(rng.choice(['q', 'species', 'x1', 'Weight', '']))] + a
            try:
                P.check_particle_output_parameters(ctrl)
                R.check(False, 'unknown-accepted', lambda: 'output of %r was accepted' % (ctrl.particle_output_attributes,))
            except (RuntimeError, SystemExit):
                R.count('refused')
            ctrl.particle_output_attributes = a
            P.check_particle_output_parameters(ctrl)
        ctrl.particle_output_attributes = a if rng.random() < 0.5 else tuple(a)

    def new_file():
        f = File('out%d.h5part' % len(files))
        ctrl.particle_output_file = f.name
        P.initialize_particle_output_file(ctrl)
        files.append(f)
        f.check(W, R, 'after initialize_particle_output_file')

    def write(close=False):
        f = files[-1]
        pick()
        snap = {sn: W.snapshot(sn) for sn in W.names}
        again = bool(f.groups) and f.step == ctrl.timeloop_count
        if close:
            P.write_particles_to_file(ctrl, close_flag=True)
        else:
            P.write_particles_to_file(ctrl)
        for sn in W.names:
            R.check(W.snapshot(sn).tobytes() == snap[sn].tobytes(), 'particles-altered', 'writing changed the particles of %s' % sn)
        if again:
            R.count('second_writes')         # a second call in the same step is documented to write nothing
        else:
            f.groups.append((ctrl.time, list(ctrl.particle_output_attributes), snap))
            R.count('writes')
            R.count('empty_species_written', sum(len(a) == 0 for a in snap.values()))
            R.sig('write', case['engine'], case['coord'], len(W.names), 'L%d' % case['L'], min(len(f.groups), 3), sum(len(a) for a in snap.values()) > len(W.names) * case['L'],
                  any(len(a) == 0 for a in snap.values()), len(files))
        f.step = ctrl.timeloop_count
        f.check(W, R, 'after write at step %d' % ctrl.timeloop_count)

    new_file()
    for step in range(case['steps'] + 1):
        if rng.random() < 0.75:
            write()
            if rng.random() < 0.25:
                write()
        if not case.get("many") and rng.random() < 0.12:
            write(close=True)
            new_file()
            R.count('further_files')
            if rng.random() < 0.7:
                write()
        if rng.random() < case['p_add']:
            sn = W.names[int(rng.integers(0, len(W.names)))]
            W.add(sn, W.new_particles(sn, int(rng.integers(1, 3 * case['L'] + 2)), rng))
        if traj:
            W.record()
        if step < case['steps']:
            dt = ctrl.dt
            if traj and rng.random() < 0.15:
                # a step so small that the time stays the same
                ctrl.dt = 0.0
                R.count('steps_without_time')
            W.advance()
            ctrl.dt = dt
    write(close=True)
    # the file was asked to be closed: it must be possible to open it again here
    try:
        h5py.File(files[-1].name, 'a').close()
    except OSError as e:
        R.check(False, 'not-closed', 'after write_particles_to_file(close_flag=True) the file is still open: %s' % e)
    for f in files:
        f.check(W, R, 'at the end')
    if traj:
        trajectories(W, R)
        if rng.random() < 0.5:
            W.record()
            W.advance()
            W.record()
            trajectories(W, R)
