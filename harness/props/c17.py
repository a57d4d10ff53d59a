"""Cell sets, point location and region-wise field operations against direct geometry."""
import numpy as np
import dolfin as df
import Dolfin_Module as DM
from geo import Geo
from world import make_mesh


def region_cells(R, reg, g, pm, want, what, spherical):
    R.count('regions')
    got = [int(c) for c in reg.cell_index]
    if not R.check(sorted(got) == sorted(want), 'region-cells:' + what, lambda: 'the %s region has cells %r; the cells whose midpoints lie in it are %r' % (what, sorted(got), sorted(want))):
        return False
    R.count('partial_regions', 0 < len(want) < g.nc)
    R.check(int(reg.ncell) == len(want), 'ncell:' + what, lambda: 'ncell is %r for %d cells' % (reg.ncell, len(want)))
    for k, c in enumerate(got):
        if spherical:
            a, b = sorted(g.V[c, :, 0])
            v = 4.0 / 3.0 * np.pi * (b ** 3 - a ** 3)
        else:
            v = g.vol[c]
        R.check(abs(reg.volume[k] - v) <= 1e-9 * v, 'region-volume:' + what, lambda: 'volume of cell %d in the region: %r, expected %r' % (c, reg.volume[k], v))
        R.check(np.allclose(np.asarray(reg.midpoint[k])[:g.g], g.mid[c], rtol=1e-10, atol=1e-10 * g.L), 'region-midpoint:' + what,
                lambda: 'midpoint of cell %d in the region: %r, expected %r' % (c, reg.midpoint[k], g.mid[c]))
        R.check(int(reg.cell_list[k].index()) == c, 'region-list:' + what, lambda: 'cell_list[%d] is cell %d, cell_index says %d' % (k, reg.cell_list[k].index(), c))
    return True


def run(case, R):
    rng = np.random.default_rng(case['seed'])
    sph = case.get('spherical', False)
    mesh = make_mesh(rng, case['gdim'], case.get('mesh'), spherical=sph)
    g = Geo(mesh)
    pm = DM.Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if sph else 'Cartesian', compute_dictionaries=True, compute_tree=True)
    lo, hi = g.X.min(axis=0), g.X.max(axis=0)
    regs = []
    tol = 1e-6 * g.hmin + 1e-9
    # --- regions
    W = DM.WholeMesh_C(pm)
    if region_cells(R, W, g, pm, range(g.nc), 'whole-mesh', sph):
        regs.append((W, set(range(g.nc)), 'whole'))
    for _ in range(case['nregions']):
        style = int(rng.integers(0, 6))
        if style == 0:                      # anywhere, may be empty or straddle the boundary
            a, b = np.sort(rng.uniform(lo - 0.3 * g.L, hi + 0.3 * g.L, (2, g.g)), axis=0)
        elif style == 1:                    # around one midpoint
            c = g.mid[int(rng.integers(0, g.nc))]
            a, b = c - rng.uniform(0.01, 2, g.g) * g.hmin, c + rng.uniform(0.01, 2, g.g) * g.hmin
        elif style == 2:                    # everything in all directions but one
            a, b = lo - g.L, hi + g.L
            k = int(rng.integers(0, g.g))
            a[k], b[k] = np.sort(rng.uniform(lo[k], hi[k], 2))
        elif style == 3:                    # half-space
            a, b = lo - g.L, hi + g.L
            k = int(rng.integers(0, g.g))
            (a if rng.random() < 0.5 else b)[k] = rng.uniform(lo[k], hi[k])
        elif style == 5:                    # limits at midpoints
            c, d = g.mid[rng.integers(0, g.nc, 2)]
            a, b = np.minimum(c, d), np.maximum(c, d)
            if rng.random() < 0.3:
                a = np.where(rng.random(g.g) < 0.5, lo - g.L, a)
            R.count('limits_at_midpoints')
        else:                               # a slab thinner than a cell
            c = rng.uniform(lo, hi)
            a, b = c - 0.05 * g.hmin, c + 0.05 * g.hmin
            k = int(rng.integers(0, g.g))
            a = np.where(np.arange(g.g) == k, a, lo - g.L)
            b = np.where(np.arange(g.g) == k, b, hi + g.L)
        da, db = np.abs(g.mid - a), np.abs(g.mid - b)
        eps = min(1e-12 * g.L, 2e-11)       # a midpoint on the limit belongs to the region
        if ((da > eps) & (da < tol)).any() or ((db > eps) & (db < tol)).any():
            continue
        want = np.nonzero(((g.mid > a - eps) & (g.mid < b + eps)).all(axis=1))[0].tolist()
        if g.g == 1 and rng.random() < 0.5:
            what, make = 'spherical', lambda: DM.SphericalRegion_C(pm, float(0.5 * (a[0] + b[0])), float(0.5 * (b[0] - a[0])))
        elif g.g == 1:
            what, make = 'rectangular', lambda: DM.RectangularRegion_C(pm, float(a[0]), float(b[0]))
        else:
            what, make = 'rectangular', lambda: DM.RectangularRegion_C(pm, tuple(a.tolist()), tuple(b.tolist()))
        if not want:
            R.count('empty_regions')
            try:
                r = make()
                R.check(False, 'empty-region', lambda: 'a region containing no cell midpoint was accepted with cells %r' % list(r.cell_index))
            except (RuntimeError, SystemExit):
                R.count('assertions')
            continue
        try:
            r = make()
        except RuntimeError as e:
            R.check(False, 'region-refused', lambda: 'a region containing the midpoints of cells %r was refused: %s' % (want, e))
            continue
        R.sig('region', g.g, what, style, min(len(want), 5), len(want) == g.nc)
        if region_cells(R, r, g, pm, want, what, sph):
            regs.append((r, set(want), what))
    # --- in_cell and point location
    for _ in range(case['npoints']):
        how = int(rng.integers(0, 6))
        if how == 0:
            x = g.X[int(rng.integers(0, len(g.X)))].copy()                 # a vertex
        elif how == 1:
            x = rng.uniform(lo - 0.5 * g.L, hi + 0.5 * g.L)
        elif how == 2:                                                     # near a facet
            f = int(rng.integers(0, g.nf))
            x = rng.dirichlet(np.ones(g.g)) @ g.P[f] + g.fn[f] * rng.choice([-1, 1]) * g.hmin * 10.0 ** rng.uniform(-6, -1)
        else:
            x = g.random_point(rng, int(rng.integers(0, g.nc)))
        b = g.bary_all(x).min(axis=1)
        arg = [tuple(float(v) for v in x), np.array(x), [float(v) for v in x]][int(rng.integers(0, 3))]
        before = np.array(arg, copy=True)
        c = int(pm.compute_cell_index(arg))
        R.check(np.array_equal(before, np.array(arg)), 'point-altered', 'locating a point changed it')
        R.count('points')
        if b.max() > 1e-9 or how == 0:
            R.count('points_inside')
            R.check(0 <= c < g.nc and b[c] > -1e-9, 'location', lambda: 'the point %r is in cell(s) %r; it was located in %d (NO_CELL is %d)' % (
                x.tolist(), np.nonzero(b > 0)[0].tolist(), c, pm.NO_CELL))
        elif b.max() < -1e-9:
            R.count('points_outside')
            R.check(c == pm.NO_CELL, 'location-outside', lambda: 'the point %r is in no cell; it was located in cell %d' % (x.tolist(), c))
        if regs:
            r, cells, what = regs[int(rng.integers(0, len(regs)))]
            k = int(rng.integers(0, r.ncell))
            if b.max() > 0 and rng.random() < 0.5:
                j = [i for i in range(r.ncell) if int(r.cell_index[i]) == int(b.argmax())]
                k = j[0] if j else k
            bk = b[int(r.cell_index[k])]
            if abs(bk) > 1e-9:
                R.count('in_cell')
                got = bool(r.in_cell(np.array(x), k))
                R.check(got == (bk > 0), 'in_cell', lambda: 'in_cell says %r for %r in cell %d (barycentric minimum %g)' % (got, x.tolist(), r.cell_index[k], bk))
    # --- fields
    for _ in range(case['nfields']):
        et, deg = [('DG', 0), ('CG', 1), ('DG', 1), ('CG', 2)][int(rng.choice(4, p=[.5, .25, .15, .1]))]
        vector = bool(rng.random() < 0.5)
        mk = (lambda: DM.Field_C(pm, element_type=et, element_degree=deg, field_type='vector')) if vector else \
             (lambda: DM.Field_C(pm, element_type=et, element_degree=deg, field_type='scalar'))
        F = mk()
        n = len(F.function_values)
        cd = [np.array(F.function_space.dofmap().cell_dofs(c)) for c in range(g.nc)]
        for _ in range(4):
            op = str(rng.choice(['set', 'set', 'set_gauss', 'mul', 'mul_gauss', 'add']))
            v0 = rng.normal(0, 1, n)
            F.function_values[:] = v0
            sub = regs[int(rng.integers(0, len(regs)))] if rng.random() < 0.7 and regs else None
            cells = sub[1] if sub else set(range(g.nc))
            ind = np.unique(np.concatenate([cd[c] for c in cells]))
            mask = np.zeros(n, bool)
            mask[ind] = True
            val = float(rng.choice([0.0, 1.0, -2.5, 1e10, 3e-7, rng.normal()]))
            kw = dict(subdomain=sub[0]) if sub else {}
            R.count('field_ops')
            R.count('field_region_ops', bool(sub) and len(cells) < g.nc)
            R.sig('field', op, et, deg, vector, bool(sub), len(cells) == g.nc, g.g)
            if op == 'set':
                F.set_values(val, **kw)
                got = F.function_values.get_local()
                want = np.where(mask, val, 0.0)
                R.check(np.array_equal(got, want), 'set_values', lambda: 'set_values(%r)%s on a %s%d field: value %r at a degree of freedom that should be %r' % (
                    val, ' on a region' if sub else '', et, deg, got[got != want][0], want[got != want][0]))
            elif op == 'set_gauss':
                np.random.seed(int(rng.integers(0, 1 << 30)))
                sd = abs(val) if 1e-3 < abs(val) < 1e3 else 1.0
                F.set_gaussian_values(sd, **kw)
                got = F.function_values.get_local()
                R.check(np.all(got[~mask] == 0), 'set_gaussian-outside', lambda: 'set_gaussian_values on a region left a non-zero value outside it')
                z = got[mask] / sd
                R.check(np.all(np.isfinite(z)) and np.all(np.abs(z) < 8) and np.all(z != 0), 'set_gaussian-inside',
                        lambda: 'set_gaussian_values(%r): values %r are not draws from that distribution' % (sd, got[mask][:5].tolist()))
                if sub is None and n > 1 or len(cells) > 2 and (et, deg) == ('DG', 0):
                    R.check(len(np.unique(z)) > 1, 'set_gaussian-same', 'set_gaussian_values gave every degree of freedom the same value')
            elif op == 'mul':
                if sub and (et, deg) != ('DG', 0) and et != 'DG':
                    continue
                F.multiply_values(val, **kw)
                got = F.function_values.get_local()
                want = np.where(mask, v0 * val, v0)
                R.check(np.allclose(got, want, rtol=1e-13, atol=0), 'multiply_values', lambda: 'multiply_values(%r)%s: %r became %r' % (
                    val, ' on a region' if sub else '', v0[np.abs(got - want).argmax()], got[np.abs(got - want).argmax()]))
            elif op == 'mul_gauss':
                np.random.seed(int(rng.integers(0, 1 << 30)))
                sd = abs(val) if 1e-3 < abs(val) < 1e3 else 1.0
                F.multiply_values(sd, gaussian=True)
                z = F.function_values.get_local() / v0 / sd
                R.check(np.all(np.isfinite(z)) and np.all(np.abs(z) < 8) and np.all(z != 0), 'multiply_gaussian', lambda: 'multiply_values(%r, gaussian=True): factors %r are not draws from that distribution' % (sd, z[:5]))
                R.check(len(np.unique(np.round(z, 13))) >= len(z) - 1, 'multiply_gaussian-same', 'multiply_values gave degrees of freedom the same random factor')
                if n >= 100:
                    R.check(abs(z.mean()) < 6.5 / np.sqrt(n) and abs((z ** 2).mean() - 1) < 7 * np.sqrt(2 / n) + 20 / n, 'multiply_gaussian-spread', lambda: 'mean %r, variance %r of the factors' % (z.mean(), z.var()))
            else:
                G = mk()
                w0 = rng.normal(0, 1, n)
                G.function_values[:] = w0
                if rng.random() < 0.3:
                    F.multiply_add(G)
                    want = v0 + w0
                else:
                    F.multiply_add(G, multiplier=val)
                    want = v0 + val * w0
                got = F.function_values.get_local()
                R.check(np.allclose(got, want, rtol=1e-13, atol=1e-13 * max(1, abs(val))), 'multiply_add', lambda: 'multiply_add(%r): %r instead of %r' % (val, got[:3], want[:3]))
                R.check(np.array_equal(G.function_values.get_local(), w0), 'multiply_add-other', 'multiply_add changed the field it adds')
            # the function and its value alias remain one thing
            R.check(np.array_equal(F.function.vector().get_local(), F.function_values.get_local()), 'field-alias', 'the function and function_values differ')
