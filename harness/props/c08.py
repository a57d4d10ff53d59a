"""Deposition: every density is recomputed from the stored particles and compared degree of freedom by degree of freedom."""
import numpy as np
from world import World
import fe


OTHER = [('CG', 1), ('DG', 1), ('CG', 2), ('DG', 2), ('DG', 0)]


def field(DM, pm, el):
    return DM.Field_C(pm, el[0], el[1], 'scalar')


def oracle(W, space, arrays, n):
    out = np.zeros(n)
    for a in arrays:
        X = W.X(a)
        for i in range(len(a)):
            c = int(a['cell_index'][i])
            out[space.dofs(c)] += float(a['weight'][i]) * space.basis(c, X[i])
    return out


def close(a, b, tol):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def run(case, R):
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 8)
    if not W.pm.cell_volume_dict:
        W.pm.compute_cell_volume_dict()
    vol = W.geo.vol if W.coord != 'spherical_r' else 4 * np.pi / 3 * np.abs(W.geo.V[:, 1, 0] ** 3 - W.geo.V[:, 0, 0] ** 3)
    el = case['density']
    dof = {sn: field(W.DM, W.pm, el) for sn in W.names}
    cellF = {sn: field(W.DM, W.pm, ['DG', 0]) for sn in W.names}
    Q = field(W.DM, W.pm, el)
    others = {}
    space = fe.Space(Q.function_space, W.geo, el[1])
    cs = fe.Space(cellF[W.names[0]].function_space, W.geo, 0)
    n = Q.function_len
    for sn in W.names:
        k = case['L'] * int(rng.integers(1, 3)) if case.get('exact') else (case['n'] if case['n'] is not None else int(rng.integers(0, 3 * case['L'] + 2)))
        lst = W.new_particles(sn, k, rng)
        s = 10.0 ** rng.integers(-6, 12)
        lst = [l[:3 * W.pdim] + (l[3 * W.pdim] * s,) + l[3 * W.pdim + 1:] for l in lst]
        W.add(sn, lst)
    W.locate()
    for step in range(case['steps']):
        if step:
            W.advance()
        pre = {sn: W.snapshot(sn) for sn in W.names}
        want = {}
        for sn in W.names:
            v0 = float(rng.choice([0.0, 0.0, 1.0, -2.5]))
            F, C = dof[sn], cellF[sn]
            F.set_values(v0)
            C.set_values(0.0)
            R.check(np.all(F.function_values.get_local() == v0) and np.all(C.function_values.get_local() == 0.0), 'reset', 'set_values(%r) did not set every value' % v0)
            reps = int(rng.choice([1, 1, 2]))
            for i in range(reps):
                mode = int(rng.integers(0, 3))
                if i == 0 and mode == 0:
                    W.P.accumulate_number_density(sn, dof_number_density_F=F, cell_number_density_F=C)
                    gotcell = True
                elif i == 0 and mode == 1:
                    W.P.accumulate_number_density(sn, F)
                    W.P.accumulate_number_density(sn, None, C)
                    gotcell = True
                else:
                    W.P.accumulate_number_density(sn, F)
                    gotcell = i > 0 and gotcell
            a = pre[sn]
            one = oracle(W, space, [a], n)
            total = float(np.sum(a['weight'].astype(float)))
            tol = 1e-9 * (total + abs(v0)) * reps + 1e-300
            got = F.function_values.get_local()
            R.check(close(got, v0 + reps * one, tol), 'dof-density', lambda: '%s: density on the degrees of freedom differs from the particles by %r (weights sum to %r)' % (
                sn, float(np.max(np.abs(got - v0 - reps * one))), total))
            R.check(abs(got.sum() - v0 * n - reps * total) <= tol * n, 'dof-total', lambda: '%s: the density sums to %r, the weights to %r x %d' % (sn, got.sum() - v0 * n, total, reps))
            R.count('dof_arrays_checked')
            R.count('particles_deposited', len(a) * reps)
            R.count('repeated_calls', reps > 1)
            R.count('empty_species', len(a) == 0)
            R.count('exactly_full', len(a) > 0 and len(a) % case['L'] == 0)
            want[sn] = v0 + reps * one
            if gotcell:
                R.count('cell_arrays_checked')
                cv = C.function_values.get_local()
                percell = np.array([cv[cs.dofs(c)][0] for c in range(W.geo.nc)])
                w = np.bincount(a['cell_index'].astype(int), weights=a['weight'].astype(float), minlength=W.geo.nc)
                R.check(np.all(np.abs(percell * vol - w) <= 1e-9 * (w + total * 1e-3 + 1e-300)), 'cell-density',
                        lambda: '%s: cell density times volume differs from the weights in the cells: %r vs %r' % (sn, (percell * vol)[:10].tolist(), w[:10].tolist()))
                R.check(abs(np.sum(percell * vol) - total) <= 1e-9 * total + 1e-300, 'cell-total', lambda: '%s: cell densities integrate to %r, weights sum to %r' % (sn, np.sum(percell * vol), total))
        q0 = rng.normal(0, 1, n)
        Q.set_values(0.0)
        if rng.random() < 0.5:
            Q.function_values[:] = q0
        else:
            q0 = np.zeros(n)
        W.P.accumulate_charge_density_from_particles(dof, Q)
        expect = q0 + sum(W.q[sn] * want[sn] for sn in W.names)
        scale = sum(abs(W.q[sn]) * np.max(np.abs(want[sn])) for sn in W.names) + np.max(np.abs(q0)) + 1e-300
        R.count('charge_arrays_checked')
        got = Q.function_values.get_local()
        R.check(close(got, expect, 1e-9 * scale), 'charge', lambda: 'charge density differs from the sum of charge x number density by %r (scale %r)' % (float(np.max(np.abs(got - expect))), scale))
        for sn in W.names:
            b = W.snapshot(sn)
            R.check(b.tobytes() == pre[sn].tobytes(), 'particles-changed', 'computing densities changed the particles of ' + sn)
            g = dof[sn].function_values.get_local()
            R.check(close(g, want[sn], 1e-9 * (np.max(np.abs(want[sn])) + 1e-300)), 'density-changed', 'computing the charge density changed the number density of ' + sn)
        # one particle at a time, in another order, and the searching variant
        sn = W.names[int(rng.integers(0, len(W.names)))]
        a = pre[sn]
        if len(a):
            F = dof[sn]
            F.set_values(0.0)
            for i in rng.permutation(len(a)):
                F.interpolate_delta_function_to_dofs(a[i])
            one = oracle(W, space, [a], n)
            tot = float(np.sum(a['weight'].astype(float)))
            got = F.function_values.get_local()
            R.check(close(got, one, 1e-9 * tot), 'order', 'depositing the particles in another order gives another density')
            R.count('other_order_checked')
            inside = [i for i in range(len(a)) if W.geo.bary(int(a['cell_index'][i]), W.X(a)[i]).min() > 1e-6]
            F.set_values(0.0)
            for i in inside:
                F.integrate_delta_function(a[i])
            one = oracle(W, space, [a[inside]], n)
            got = F.function_values.get_local()
            R.check(close(got, one, 1e-9 * tot), 'integrate-delta', 'integrate_delta_function gives another density than the basis functions at the particles')
            R.count('searching_variant_checked', len(inside))
        # a field of another element on the same mesh, in between
        if len(a) and rng.random() < 0.6:
            e2 = OTHER[int(rng.integers(0, len(OTHER)))]
            if e2 not in others:
                G = field(W.DM, W.pm, e2)
                others[e2] = (G, fe.Space(G.function_space, W.geo, e2[1]))
            G, sp2 = others[e2]
            G.set_values(0.0)
            W.P.accumulate_number_density(sn, G)
            one = oracle(W, sp2, [a], G.function_len)
            got = G.function_values.get_local()
            R.check(close(got, one, 1e-9 * tot), 'other-element', lambda: 'density on %s%d, next to %s%d on the same mesh, differs from the particles by %r' % (
                e2 + tuple(el) + (float(np.max(np.abs(got - one))),)))
            R.count('other_element_checked')
        R.sig(W.engine, W.coord, W.geo.g, el, 'L%d' % case['L'], len(W.names), bool(step), any(len(pre[s]) == 0 for s in W.names))
