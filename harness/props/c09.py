"""Interpolation: values handed to particles against finite-element evaluation rebuilt from the degrees of freedom."""
import numpy as np
from world import World
import fe


def run_mover(case, R):
    """the values the movers use: velocity changes of advances that only accelerate, with the field changed between calls"""
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 10)
    g = W.geo
    F = W.negE
    et, deg = case['element']
    V = F.function_space
    for sn in W.names:
        W.add(sn, W.new_particles(sn, int(rng.choice([0, 1, case['L'], 2 * case['L'], 30])), rng))
    W.locate()
    amp = np.max(np.abs(F.function_values.get_local())) + 1e-300
    for call in range(case['steps']):
        v = rng.normal(0, 1, F.function_len) * amp * 10.0 ** rng.integers(-2, 2)
        if rng.random() < 0.4:
            for c in range(g.nc):
                if rng.random() < 0.5:
                    v[V.dofmap().cell_dofs(c)] = 0.0
        F.function_values[:] = v
        before = {sn: W.snapshot(sn) for sn in W.names}
        W.advance(accel_only=True)
        R.check(np.array_equal(F.function_values.get_local(), v), 'mover-field-changed', 'advancing changed the field')
        for sn in W.names:
            a, b = before[sn], W.snapshot(sn)
            if not R.check(len(a) == len(b), 'mover-count', 'accelerating changed the number of particles'):
                continue
            Xa, Ua, Ub = W.X(a), W.U(a), W.U(b)
            f = -W.q[sn] / W.m[sn] * W.ctrl.dt
            scale = abs(f) * np.max(np.abs(v)) + 1e-300
            R.count('mover_full_segments', len(a) > case['L'])
            for i in range(len(a)):
                c = int(a[i]['cell_index'])
                e = np.zeros(W.pdim)
                e[:g.g] = f * fe.vector_value(V, g, deg, v, c, Xa[i][:g.g])
                R.count('mover_values')
                R.count('mover_values_' + W.engine)
                R.check(np.all(np.abs(Ub[i] - Ua[i] - e) <= 1e-8 * scale + 1e-12 * (np.abs(Ua[i]) + np.abs(Ub[i]))), 'mover-value', lambda: (
                    'call %d: %s particle %d of %d (%d in a segment) in cell %d: velocity changed by %r, the field there gives %r' % (
                        call, sn, i, len(a), case['L'], c, (Ub[i] - Ua[i]).tolist(), e.tolist())))
        # new particles, so that segments have other numbers of particles in the next call
        for sn in W.names:
            if rng.random() < 0.5:
                W.add(sn, W.new_particles(sn, int(rng.integers(0, case['L'] + 2)), rng))
        W.locate()
    R.sig('mover', W.engine, W.coord, g.g, et, deg, case['L'], case['steps'])


def run(case, R):
    if case.get('mover'):
        return run_mover(case, R)
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 9)
    g = W.geo
    et, deg = case['fel']
    vec = case['ftype'] == 'vector'
    F = W.DM.Field_C(W.pm, et, deg, 'vector') if vec else W.DM.Field_C(W.pm, et, deg, 'scalar')
    v = rng.normal(0, 1, F.function_len) * 10.0 ** rng.integers(-3, 6)
    F.function_values[:] = v
    ncomp = g.g if vec else 1
    V = F.function_space
    if case.get('zero'):
        for c in range(g.nc):
            if rng.random() < 0.5:
                v[V.dofmap().cell_dofs(c)] = 0.0
        F.function_values[:] = v
    if vec and g.g > 1 and rng.random() < 0.4:                  # fields along a coordinate axis in some cells
        for c in range(g.nc):
            if rng.random() < 0.5:
                v[V.sub(int(rng.integers(0, g.g))).dofmap().cell_dofs(c)] = 0.0
        F.function_values[:] = v
        R.count('axial_fields')
    scalar = None if vec else fe.Space(V, g, deg)

    def at(c, x):
        return fe.vector_value(V, g, deg, v, c, x) if vec else np.array([scalar.value(v, c, x)])

    def candidates(x, c):
        """the values the field has at x: in every cell containing x (more than one on a shared facet)"""
        b = g.bary_all(x).min(axis=1)
        cs = [int(i) for i in np.nonzero(b >= -1e-9)[0]] or [int(c)]
        return [at(i, x) for i in cs]
    names = ['E' + c for c in W.pos[:ncomp]]
    dt = {'names': names, 'formats': [np.float64] * ncomp}
    scale = np.max(np.abs(v)) + 1e-300
    seen = []
    for call in range(case['steps']):
        sn = W.names[0]
        n = int(rng.choice([0, 1, 2, 5, case['L'], 30]))
        lst = W.new_particles(sn, n, rng)
        pts = np.zeros(n, dtype=W.P.particle_dtype)
        for i, l in enumerate(lst):
            pts[i] = l
            k = int(rng.integers(0, g.g + 1))
            if rng.random() < 0.2 and not g.exterior[g.cfacets[l[-3], k]]:      # on an interior facet of its cell
                w = rng.dirichlet(np.ones(g.g + 1))
                w[k] = 0
                x = (w / w.sum()) @ g.V[l[-3]]
                for d in range(g.g):
                    pts[i][W.pos[d]] = x[d]
        X = W.X(pts)
        before = pts.tobytes()
        out = np.full(n + 3, -7.75, dtype=dt)
        F.interpolate_field_to_points(pts, out[:n] if rng.random() < 0.5 else out)
        R.check(pts.tobytes() == before, 'points-changed', 'interpolation changed the particles')
        R.check(np.array_equal(F.function_values.get_local(), v) and np.array_equal(F.function.vector().get_local(), v), 'field-changed', 'interpolation changed the field')
        R.check(all(float(out[n + k][d]) == -7.75 for k in range(3) for d in range(ncomp)), 'overrun', 'values beyond the given points were written')
        py = np.array([[float(out[i][d]) for d in range(ncomp)] for i in range(n)]).reshape(n, ncomp)
        for i in range(n):
            R.count('python_values')
            cand = candidates(X[i], lst[i][-3])
            R.count('shared_points', len(cand) > 1)
            R.check(any(np.all(np.abs(py[i] - e) <= 1e-8 * scale) for e in cand), 'python-value', lambda: 'field at %r (cell %d) is %r, expected one of %r' % (
                X[i].tolist(), lst[i][-3], py[i].tolist(), [e.tolist() for e in cand]))
        # a subset alone, later, gives the same values
        if n:
            sub = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
            o2 = np.zeros(len(sub), dtype=dt)
            F.interpolate_field_to_points(pts[sub], o2)
            got = np.array([[float(o2[j][d]) for d in range(ncomp)] for j in range(len(sub))])
            R.count('subsets')
            R.check(np.array_equal(got, py[sub]), 'independence', 'the value at a particle depends on the other particles or earlier calls')
        # C++
        if vec and [et, deg] == ['DG', 0] and W.coord != 'spherical_r':
            import numpy_types_solib  # noqa: registers the record types
            import dolfin_functions_solib as df_so
            fn = getattr(df_so, 'interpolate_field_to_points_' + W.coord)
            res = np.full((n + 2, ncomp), -7.75)
            m = int(rng.integers(0, n + 1)) if rng.random() < 0.3 else n
            fn(F, pts, m, res)
            R.check(pts.tobytes() == before, 'cpp-points-changed', 'C++ interpolation changed the particles')
            R.check(np.all(res[m:] == -7.75), 'cpp-overrun', 'C++ interpolation wrote beyond the given points')
            R.check(np.array_equal(F.function_values.get_local(), v), 'cpp-field-changed', 'C++ interpolation changed the field')
            for i in range(m):
                R.count('cpp_values')
                e = at(lst[i][-3], X[i])
                R.check(np.all(np.abs(res[i] - e) <= 1e-12 * scale), 'cpp-value', lambda: 'C++ field of particle in cell %d is %r, expected %r' % (lst[i][-3], res[i].tolist(), e.tolist()))
        # random external field
        if vec and n:
            np.random.seed(int(rng.integers(1 << 31)))
            o3 = np.full(n, -7.75, dtype=dt)
            F.interpolate_random_field_to_points(pts, o3)
            R.check(pts.tobytes() == before and np.array_equal(F.function_values.get_local(), v), 'random-changed', 'random interpolation changed particles or field')
            for i in range(n):
                r = np.array([float(o3[i][d]) for d in range(ncomp)])
                ok, z = False, None
                for e in candidates(X[i], lst[i][-3]):
                    ne = float(np.linalg.norm(e))
                    if ne == 0.0:
                        if np.all(np.abs(r) <= (0.0 if deg == 0 else 1e-12 * scale)):
                            ok, z = True, None
                            R.count('random_zero_field')
                            break
                        continue
                    t = float(r @ e) / ne ** 2
                    if np.all(np.abs(r - t * e) <= 1e-7 * (scale + abs(t) * scale)) and abs(t) < 8:
                        ok, z = True, t
                        break
                R.count('random_values')
                R.check(ok, 'random-value', lambda: 'random field %r at %r is not a standard-normal multiple of the field there (%r)' % (r.tolist(), X[i].tolist(), [e.tolist() for e in candidates(X[i], lst[i][-3])]))
                if ok and z is not None and len(candidates(X[i], lst[i][-3])) == 1:
                    seen.append(z)
        R.sig(W.coord, g.g, et, deg, case['ftype'], n if n < 3 else 'many', case.get('zero', 0))
    if case.get('stats'):
        c = int(rng.integers(0, g.nc))
        n = 2000
        F.function_values[:] = rng.normal(0, 1, F.function_len) + 3.0
        v[:] = F.function_values.get_local()
        pts = np.zeros(n, dtype=W.P.particle_dtype)
        x = g.random_point(rng, c)
        for d in range(g.g):
            pts[W.pos[d]] = x[d]
        o3 = np.zeros(n, dtype=dt)
        np.random.seed(int(rng.integers(1 << 31)))
        F.interpolate_random_field_to_points(pts, o3)
        e = at(c, x)
        z = sum(np.array([float(o3[i][d]) for i in range(n)]) * e[d] for d in range(ncomp)) / float(e @ e)
        R.count('random_distributions')
        R.check(len(set(np.round(z, 12).tolist())) > n * 0.99, 'random-distinct', 'particles share their random number: %d distinct among %d' % (len(set(np.round(z, 12).tolist())), n))
        # limits at 6 standard errors
        q = [abs(np.mean(z)) * np.sqrt(n), abs(np.mean(z * z) - 1) * np.sqrt(n / 2), abs(np.mean(z[1:] * z[:-1])) * np.sqrt(n - 1),
             abs(np.mean(np.abs(z) < 0.6744898) - 0.5) * 2 * np.sqrt(n), abs(np.mean(z ** 4) - 3) * np.sqrt(n / 96.0) / 2]
        R.check(max(q) < 6.5, 'random-normal', lambda: 'the random multipliers are not independent standard-normal numbers: deviations (standard errors) of mean, variance, correlation, quartiles, kurtosis = %r' % q)
