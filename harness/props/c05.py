"""Lock-step comparison: the same world run by the Python and by the C++ engine."""
import numpy as np
from world import World
import movers


def close(a, b, tol):
    return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol)


def compare(A, B, R, step, frail, scale):
    g = A.geo
    for sn in A.names:
        a, b = A.snapshot(sn), B.snapshot(sn)
        ia, ib = [int(i) for i in a['unique_ID']], [int(i) for i in b['unique_ID']]
        fa = [i for i in ia if (sn, i) not in frail]
        fb = [i for i in ib if (sn, i) not in frail]
        R.count('comparisons')
        R.count('particles_compared', len(fa))
        R.count('exactly_full', len(ia) > 0 and len(ia) % A.case['L'] == 0)
        if not R.check(fa == fb, 'survivors', lambda: 'step %d %s: Python engine has %r, C++ engine %r' % (step, sn, fa[:40], fb[:40])):
            return False
        R.check(A.counts(sn) == (len(ia), len(ia)) and B.counts(sn) == (len(ib), len(ib)), 'counts', lambda: 'step %d %s: counts %r / %r for %d / %d particles' % (
            step, sn, A.counts(sn), B.counts(sn), len(ia), len(ib)))
        mb = movers.by_uid(b)
        for p in a:
            uid = int(p['unique_ID'])
            if (sn, uid) in frail:
                continue
            q = mb[uid]
            for k in ('cell_index', 'crossings', 'bitflags'):
                R.check(int(p[k]) == int(q[k]), 'int:' + k, lambda: 'step %d %s particle %d: %s is %d in Python, %d in C++' % (step, sn, uid, k, p[k], q[k]))
            R.check(float(p['weight']) == float(q['weight']), 'weight', 'weights differ')
            xp, xq = np.array([p[k] for k in A.pos]), np.array([q[k] for k in A.pos])
            R.check(close(xp, xq, scale['x']), 'position', lambda: 'step %d %s particle %d: x is %r in Python, %r in C++' % (step, sn, uid, xp.tolist(), xq.tolist()))
            up, uq = np.array([p[k] for k in A.un]), np.array([q[k] for k in A.un])
            R.check(close(up, uq, scale['u']), 'velocity', lambda: 'step %d %s particle %d: u is %r in Python, %r in C++' % (step, sn, uid, up.tolist(), uq.tolist()))
            zp, zq = np.array([p[k] for k in A.x0n]), np.array([q[k] for k in A.x0n])
            R.check(close(zp, zq, scale['x']), 'start', lambda: 'step %d %s particle %d: x0 is %r in Python, %r in C++' % (step, sn, uid, zp.tolist(), zq.tolist()))
    R.check(int(A.P.get_total_particle_count()) == int(B.P.get_total_particle_count()) or bool(frail), 'total', 'total particle counts differ')
    return True


def calls(A, B, R, step, frail, scale):
    la, lb = A.take_log(), B.take_log()
    ga, gb = movers.group(la, A), movers.group(lb, B)
    for k in sorted(set(ga) | set(gb)):
        if k in frail:
            continue
        ea, eb = ga.get(k, []), gb.get(k, [])
        R.count('boundary_calls', len(ea))
        if R.check([(e['fn'], e['facet']) for e in ea] == [(e['fn'], e['facet']) for e in eb], 'boundary-calls', lambda: 'step %d %r: boundary functions called %r in Python, %r in C++' % (
                step, k, [(e['fn'], e['facet']) for e in ea], [(e['fn'], e['facet']) for e in eb])):
            for x, y in zip(ea, eb):
                R.check(close(x['normal'], y['normal'], 1e-9), 'normal-at-call', lambda: 'normals handed over differ: %r %r' % (x['normal'], y['normal']))
                n = A.pdim
                R.check(close(x['before'][:2 * n], y['before'][:2 * n], scale['x']), 'place-at-call', 'positions at a boundary call differ')


def find_frail(A, frail):
    """particles whose next path is a matter of round-off"""
    for sn in A.names:
        for p in A.snapshot(sn):
            if A.predict(sn, p)['delicate']:
                frail.add((sn, int(p['unique_ID'])))


def traj(A, B, R, frail, scale):
    ta, tb = A.trajectories(), B.trajectories()
    if not R.check(sorted(ta) == sorted(tb), 'trajectory-set', lambda: 'trajectories of %r in Python, %r in C++' % (sorted(ta), sorted(tb))):
        return
    for k in ta:
        if k in frail:
            continue
        for (da, ia, na), (db, ib, nb) in zip(ta[k], tb[k]):
            if not R.check(na == nb and len(ta[k]) == len(tb[k]), 'trajectory-length', lambda: 'trajectory of %r has %d points in Python, %d in C++' % (k, na, nb)):
                continue
            R.count('trajectory_points', na)
            R.check((ia == -1) == (ib == -1), 'trajectory-open', 'a trajectory is open in one engine and closed in the other')
            for c in da.dtype.names:
                s = scale['u'] if c in A.un else scale['t'] if c == 't' else scale['E'] if c.startswith('E') else scale['x']
                R.check(close(da[c], db[c], s), 'trajectory:' + ('E' if c.startswith('E') else c if c in ('step', 't') else 'phase'),
                        lambda: 'trajectory of %r: %s is %r in Python, %r in C++' % (k, c, da[c].tolist(), db[c].tolist()))


def run(case, R):
    A, B = World(case, 'py'), World(case, 'cpp')
    rng = np.random.default_rng(case['seed'] + 7)
    if case.get('traj'):
        for W in (A, B):
            W.enable_trajectories(case['steps'], extra=case.get('extra', 40), max_points=case.get('max_points'))
    for sn in A.names:
        n = int(rng.integers(0, 3 * case['L'] + 2)) if case['n'] is None else case['n']
        if case.get('exact'):
            n = case['L'] * int(rng.integers(1, 4))
        lst = A.new_particles(sn, n, rng, traj=0.5 if case.get('traj') else 0)
        A.add(sn, lst)
        B.add(sn, lst)
        if case.get('traj'):
            R.count('trajectory_particles', sum((l[3 * A.pdim + 1] & A.PC.TRAJECTORY_FLAG) != 0 for l in lst))
    A.locate()
    B.locate()
    frail = set()
    umax, emax = 1e-300, 1e-300
    if A.negE is not None:
        emax = float(np.abs(A.negE.function_values[:]).max()) + 1e-300

    def scales():
        for sn in A.names:
            u = A.U(A.snapshot(sn))
            nonlocal umax
            if len(u):
                umax = max(umax, float(np.abs(u).max()))
        u = umax + max(abs(A.q[s] / A.m[s]) for s in A.names) * A.ctrl.dt * emax * case['steps']
        x = A.geo.L + float(np.abs(A.geo.X).max()) + u * A.ctrl.dt * case['steps']
        return dict(x=1e-8 * x, u=1e-8 * u, t=1e-8 * (A.ctrl.dt * (case['steps'] + 1) + abs(A.t0)), E=1e-8 * emax)
    scale = scales()
    if not compare(A, B, R, -1, frail, scale):
        return
    if case.get('traj'):
        A.record()
        B.record()
    given = [(W.negE, W.ext) for W in (A, B)]
    for step in range(case['steps']):
        if step and case.get('vary') and rng.random() < 0.6:
            # the user changes the time step, the boundaries' marks, the fields
            f = float(rng.choice([0.25, 0.5, 2.0])) if rng.random() < 0.5 else 1.0
            s = int(rng.integers(1 << 30)) if rng.random() < 0.6 else None
            off = None if rng.random() < 0.6 else bool(rng.random() < 0.6)
            for W, g in ((A, given[0]), (B, given[1])):
                W.ctrl.dt = float(W.ctrl.dt * f)
                if s is not None:
                    W.remark(np.random.default_rng(s))
                if off is not None:
                    W.negE = None if off else g[0]
                    a = W.ctrl.apply_solved_electric_field
                    if a is not None:
                        for i, sn in enumerate(W.names):
                            a[sn] = bool((s or 0) >> i & 1)
            R.count('changed_between_steps')
            scale = scales()
        if not case.get('blind'):
            find_frail(A, frail)
        if step and rng.random() < case.get('p_add', 0.3):
            sn = A.names[int(rng.integers(0, len(A.names)))]
            k = int(rng.integers(1, case['L'] + 2))
            lst = A.new_particles(sn, k, rng, traj=0.5 if case.get('traj') else 0)
            B.uid = A.uid
            A.add(sn, lst)
            B.add(sn, lst)
            A.locate()
            B.locate()
            if not case.get('blind'):
                find_frail(A, frail)
        accel = bool(case.get('accel_only')) and rng.random() < 0.4
        R.count('accel_only_steps', accel)
        A.advance(accel_only=accel)
        B.advance(accel_only=accel)
        R.count('steps')
        if case.get('traj') and rng.random() < 0.8:
            A.record()
            B.record()
        if not case.get('blind'):
            scale = scales()
            calls(A, B, R, step, frail, scale)
            if not compare(A, B, R, step, frail, scale):
                return
    if case.get('blind'):
        scale = scales()
        calls(A, B, R, case['steps'], frail, scale)
        compare(A, B, R, case['steps'], frail, scale)
        R.count('blind_runs')
    if case.get('traj'):
        traj(A, B, R, frail, scale)
    R.sig(*movers.signature(case, B, (case.get('traj'), case.get('blind'), case.get('accel_only'), case['steps'])))
    for sn in A.names:
        R.check(abs(A.P.get_species_KE(sn) - B.P.get_species_KE(sn)) <= 1e-7 * (1e-300 + abs(A.P.get_species_KE(sn))) or bool(frail), 'KE', lambda: 'kinetic energy of %s: %r in Python, %r in C++' % (sn, A.P.get_species_KE(sn), B.P.get_species_KE(sn)))
        R.check(abs(A.P.get_species_number(sn) - B.P.get_species_number(sn)) <= 1e-9 * (1e-300 + abs(A.P.get_species_number(sn))) or bool(frail), 'number', lambda: 'number of %s: %r in Python, %r in C++' % (sn, A.P.get_species_number(sn), B.P.get_species_number(sn)))
