"""Facet search and inside tests (Python and C++) against half-space geometry and exact rational arithmetic."""
from fractions import Fraction as Q
import numpy as np
import dolfin as df
from geo import Geo
from world import make_mesh


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0])


def exact_inside(V, x):
    """is x in the closed simplex with vertices V (exactly, for these floating-point numbers)?"""
    V = [[Q(float(t)) for t in v] for v in V]
    x = [Q(float(t)) for t in x]
    g = len(x)

    def vol(pts):
        return det([[a - b for a, b in zip(p, pts[0])] for p in pts[1:]])
    tot = vol(V)
    assert tot != 0
    for i in range(g + 1):
        W = V[:i] + [x] + V[i + 1:]
        if vol(W) * tot < 0:
            return False
    return True


def inside_tests(R, g, pm, df_so, rng, case):
    mesh = pm.mesh
    for _ in range(case['npoints']):
        c = int(rng.integers(0, g.nc))
        kind = int(rng.integers(0, 7))
        V = g.V[c]
        if kind == 0:
            x = g.random_point(rng, c)
        elif kind == 1:
            x = V[int(rng.integers(0, g.g + 1))].copy()
        elif kind == 2:       # next to a facet, on either side of it
            w = rng.dirichlet(np.ones(g.g + 1))
            w[int(rng.integers(0, g.g + 1))] = 0
            x = (w / w.sum()) @ V
            for i in range(g.g):
                for _ in range(int(rng.integers(0, 3)) if abs(x[i]) > 1e-6 * g.h[c] else 0):
                    x[i] = np.nextafter(x[i], x[i] + rng.choice([-1, 1]))
        elif kind == 3:       # midpoint of an edge
            i, j = rng.integers(0, g.g + 1, 2)
            x = 0.5 * (V[i] + V[j])
        elif kind == 4:
            w = rng.normal(0, 1, g.g + 1)
            x = (w / w.sum()) @ V if abs(w.sum()) > 0.2 else g.mid[c] + rng.normal(0, 1, g.g) * g.h[c]
        elif kind == 5:
            x = g.random_point(rng, int(rng.integers(0, g.nc)))
        else:                 # on a coordinate of a vertex
            x = g.random_point(rng, c)
            k = int(rng.integers(0, g.g))
            x[k] = V[int(rng.integers(0, g.g + 1))][k]
        want = exact_inside(V, x)
        near = abs(g.bary(c, x)).min() < 1e-12
        R.count('inside_tests')
        R.count('inside_near_facet', near)
        R.count('inside_true', want)
        got = bool(pm.is_inside_cell(x, c))
        R.check(got == want, 'inside-python', lambda: 'is_inside_cell(%r, %d) is %r, exact geometry says %r (vertices %r)' % (x.tolist(), c, got, want, V.tolist()))
        got2 = bool(df_so.is_inside_vertices(mesh, [int(v) for v in g.cells[c]], x.tolist()))
        R.check(got2 == want, 'inside-cpp', lambda: 'is_inside_vertices(%r, cell %d) is %r, exact geometry says %r (vertices %r)' % (x.tolist(), c, got2, want, V.tolist()))
        R.sig('inside', g.g, kind, want, near)


def facet_tests(R, g, pm, df_so, rng, case):
    con = pm.mesh.topology()(g.g, g.g - 1)
    NO = pm.NO_FACET
    for _ in range(case['npoints']):
        c = int(rng.integers(0, g.nc))
        V = g.V[c]
        start = int(rng.integers(0, 4))
        x = g.random_point(rng, c)
        if start == 1:       # on a facet, as after a crossing
            w = rng.dirichlet(np.ones(g.g + 1))
            w[int(rng.integers(0, g.g + 1))] = 0
            x = (w / w.sum()) @ V
        elif start == 2:     # very close to a facet
            w = rng.dirichlet(np.ones(g.g + 1))
            k = int(rng.integers(0, g.g + 1))
            w[k] *= 1e-6
            x = (w / w.sum()) @ V
        elif start == 3 and rng.random() < 0.3:
            x = V[int(rng.integers(0, g.g + 1))].copy()
        d = rng.normal(0, 1, g.g)
        mode = int(rng.integers(0, 6))
        size = [1e-3, 0.3, 1.0, 5.0, 100.0][int(rng.integers(0, 5))] * g.h[c]
        if mode == 1:        # towards a vertex
            d = V[int(rng.integers(0, g.g + 1))] - x
        elif mode == 2 and g.g > 1:      # parallel to a facet
            f = g.cfacets[c, int(rng.integers(0, g.g + 1))]
            d = g.P[f, 1] - g.P[f, 0]
        elif mode == 3:      # one coordinate only
            k = int(rng.integers(0, g.g))
            d = np.eye(g.g)[k] * rng.choice([-1, 1])
        n = np.linalg.norm(d)
        d = d / n * size if n > 0 else d
        if mode == 4:
            d = d * 0.0 if rng.random() < 0.3 else g.random_point(rng, c) - x     # ends inside the cell
        tiny = start != 1 and rng.random() < 0.15
        if tiny:             # a minute move across (or short of, or along) a facet
            w = rng.dirichlet(np.ones(g.g + 1)) + 0.05
            k = int(rng.integers(0, g.g + 1))
            w[k] = 0
            delta = 10.0 ** rng.uniform(-12, -7) * g.h[c]
            nk = g.outward(c, int(g.cfacets[c, k]))
            x = (w / w.sum()) @ V - delta * nk
            d = rng.normal(0, 1, g.g) * delta * rng.choice([0.3, 1.0, 10.0, 100.0])
            if rng.random() < 0.3:
                d = delta * rng.choice([0.5, 2.0, 20.0]) * nk
            mode = 6
            R.count('minute_moves')
        # reference: half spaces
        ref = []
        for f in sorted(set(g.cfacets[c].tolist())):
            nn = g.outward(c, f)
            s = float(nn @ d)
            dist = float(nn @ (g.P[f, 0] - x))
            ref.append((f, nn, s, max(dist, 0.0)))
        ts = {f: (dist / s if s > 0 else np.inf) for f, nn, s, dist in ref}
        # interval of fractions at which rounded arithmetic may see each facet reached
        es, ed = 1e-11 * float(np.linalg.norm(d)), (1e-14 if tiny else 1e-11) * g.h[c] + 1e-13 * float(np.abs(V).max())
        lo, hi = {}, {}
        for f, nn, s, dist in ref:
            lo[f] = max(dist - ed, 0.0) / (s + es) if s + es > 0 else np.inf
            hi[f] = (dist + ed) / (s - es) if s - es > 0 else np.inf
        tmin, first = min(ts.values()), min(hi.values())
        ok = {int(f) for f in lo if lo[f] <= first and lo[f] < 1}
        none_ok = first >= 1
        must = not none_ok
        R.count('facet_searches')
        R.count('crossing', must)
        R.count('ends_inside', not must)
        R.count('tied', len(ok) > 1)
        args = (x.tolist(), d.tolist(), c)

        def judge(who, res):
            cf, frac, normal = res
            cf = int(cf)
            if cf == NO:
                R.check(none_ok, who + '-missed', lambda: '%s find_facet%r found no facet; the path reaches facet %r at fraction %r' % (who, args, [k for k in ts if ts[k] == tmin], tmin))
                R.check(float(frac) == 1.0, who + '-nofacet-fraction', lambda: '%s find_facet%r: no facet, but fraction %r' % (who, args, frac))
                return None
            if not R.check(0 <= cf <= g.g, who + '-index', lambda: '%s find_facet%r returned facet %r' % (who, args, cf)):
                return None
            f = int(con(c)[cf])
            R.check(f in ok, who + '-facet', lambda: '%s find_facet%r returned facet %d (mesh facet %d); the path meets its facets at fractions %r' % (who, args, cf, f, ts))
            fr = float(frac)
            R.check(0.0 <= fr <= 1.0, who + '-fraction-range', lambda: '%s find_facet%r fraction %r' % (who, args, fr))
            if f in ok:
                R.check(lo[f] <= fr <= hi[f], who + '-fraction', lambda: '%s find_facet%r fraction %r, facet reached at %r' % (who, args, fr, ts[f]))
                y = x + fr * d
                b = g.bary(c, y)
                k = [i for i in range(g.g + 1) if g.cfacets[c, i] == f][0]
                R.check(abs(b[k]) < 1e-7 and b.min() > -1e-6, who + '-point', lambda: '%s find_facet%r: the point at fraction %r is not on facet %d (barycentric %r)' % (who, args, fr, f, b.tolist()))
            nn = g.outward(c, f)
            nv = np.asarray(normal, float).ravel()
            R.check(nv.shape == (g.g,) and np.all(np.abs(nv - nn) < 1e-9), who + '-normal', lambda: '%s find_facet%r: normal %r, the outward unit normal is %r' % (who, args, nv.tolist(), nn.tolist()))
            return cf, fr
        a = judge('python', pm.find_facet(x, d, c))
        b = judge('cpp', df_so.find_facet(pm, x.tolist(), d.tolist(), c))
        if len(ok) <= 1 and not (none_ok and ok):
            R.check((a is None) == (b is None) and (a is None or (a[0] == b[0] and abs(a[1] - b[1]) <= 1e-9 + sum(hi[f] - lo[f] for f in ok))), 'agree',
                    lambda: 'find_facet%r: Python %r, C++ %r' % (args, a, b))
        R.sig('facet', g.g, start, mode, must, len(ok))


def run(case, R):
    import Dolfin_Module as DM
    import dolfin_functions_solib as df_so
    rng = np.random.default_rng(case['seed'])
    mesh = make_mesh(rng, case['gdim'], case.get('mesh'))
    pm = DM.Mesh_C(Mesh=mesh, coordinate_system='Cartesian', compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
    g = Geo(mesh)
    facet_tests(R, g, pm, df_so, rng, case)
    inside_tests(R, g, pm, df_so, rng, case)
