"""Field solves against an independently assembled finite-element system."""
import numpy as np
import dolfin as df
import Dolfin_Module as DM
from geo import Geo
from fe import Space, monomials
from world import make_mesh


def simplex_rule(g, n=5):
    """points (barycentric) and weights (sum 1) of a collapsed Gauss rule"""
    t, w = np.polynomial.legendre.leggauss(n)
    t, w = 0.5 * (t + 1), 0.5 * w
    if g == 1:
        return np.stack([1 - t, t], axis=1), w
    if g == 2:
        P, W = [], []
        for a, wa in zip(t, w):
            for b, wb in zip(t, w):
                P.append([1 - a, a * (1 - b), a * b])
                W.append(2 * wa * wb * a)
        return np.array(P), np.array(W)
    P, W = [], []
    for a, wa in zip(t, w):
        for b, wb in zip(t, w):
            for c, wc in zip(t, w):
                P.append([1 - a, a * (1 - b), a * b * (1 - c), a * b * c])
                W.append(6 * wa * wb * wc * a * a * b)
    return np.array(P), np.array(W)


class System:
    def __init__(self, V, g, degree, spherical):
        self.S, self.g, self.k, self.sph = Space(V, g, degree), g, degree, spherical
        self.n = V.dim()
        self.bp, self.bw = simplex_rule(g.g)
        self.A = np.zeros((self.n, self.n))
        for c in range(g.nc):
            x = self.bp @ g.V[c]
            G = self.grad(c, x)
            w = self.bw * g.vol[c] * (x[:, 0] ** 2 if spherical else 1.0)
            d = self.S.dofs(c)
            self.A[np.ix_(d, d)] += np.einsum('q,qig,qjg->ij', w, G, G)

    def grad(self, c, x):
        """gradients of the local basis at points x: (points, basis, dim)"""
        self.S.basis(c, x[0])
        C = self.S.cache[int(c)]
        y = (x - self.g.mid[c]) / self.g.h[c]
        D = np.zeros((len(x), len(self.S.mono), self.g.g))
        for m, e in enumerate(self.S.mono):
            for i in range(self.g.g):
                if e[i]:
                    v = e[i] * y[:, i] ** (e[i] - 1)
                    for j in range(self.g.g):
                        if j != i:
                            v = v * y[:, j] ** e[j]
                    D[:, m, i] = v / self.g.h[c]
        return np.einsum('qmg,mb->qbg', D, C)

    def load(self, f):
        b = np.zeros(self.n)
        for c in range(self.g.nc):
            x = self.bp @ self.g.V[c]
            B = np.array([self.S.basis(c, xx) for xx in x])
            w = self.bw * self.g.vol[c] * (x[:, 0] ** 2 if self.sph else 1.0)
            fx = np.array([f(xx) for xx in x])
            b[self.S.dofs(c)] += np.einsum('q,q,qb->b', w, fx, B)
        return b


STRINGS = {1: [('x[0]', lambda x: x[0]), ('3.5 - 2.0*x[0]', lambda x: 3.5 - 2 * x[0]), ('1.0e3', lambda x: 1e3)],
           2: [('x[0] - 2.0*x[1]', lambda x: x[0] - 2 * x[1]), ('1.0 + x[1]', lambda x: 1 + x[1])],
           3: [('x[0] + x[1] - 2.0*x[2]', lambda x: x[0] + x[1] - 2 * x[2])]}


def run(case, R):
    rng = np.random.default_rng(case['seed'])
    gd, solver = case['gdim'], case['solver']
    sph = solver == '1DS'
    mesh = make_mesh(rng, gd, 'annulus' if solver == '2DCirc' else case.get('mesh'), spherical=sph)
    g = Geo(mesh)
    pm = DM.Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if sph else 'Cartesian', compute_dictionaries=False, compute_tree=False)
    import UserUnits_Module as U_M
    eps = float(U_M.MyPlasmaUnits_C.epsilon_0)
    R.check(abs(eps / 8.8541878e-12 - 1) < 1e-5, 'epsilon', 'epsilon_0 is %r' % eps)
    deg = case['degree']
    phi = DM.Field_C(pm, element_type='CG', element_degree=deg, field_type='scalar')
    negE = None
    if case['efield']:
        negE = DM.Field_C(pm, element_type='DG', element_degree=deg - 1, field_type='vector')
    # Dirichlet boundaries
    marker = df.MeshFunction('size_t', mesh, gd - 1)
    marker.set_all(0)
    i1, i2 = [int(v) for v in rng.choice(np.arange(1, 40), 2, replace=False)]
    ext = np.nonzero(g.exterior)[0]
    fm = g.P[ext].mean(axis=1)
    k = int(rng.integers(0, gd))
    key = np.linalg.norm(fm, axis=1) if solver == '2DCirc' else fm[:, k]
    order = ext[np.argsort(key)]
    nb = 1 if gd == 1 else max(1, len(order) // 4)
    f1, f2 = list(order[:nb]), list(order[-nb:])
    if rng.random() < 0.3:
        f1, f2 = f2, f1
    v1 = set(np.unique(g.fv[f1]))
    f2 = [f for f in f2 if not v1 & set(g.fv[f].tolist())]
    for f in f1:
        marker[int(f)] = i1
    for f in f2:
        marker[int(f)] = i2
    sc = float(10.0 ** rng.integers(-3, 4))
    p1, p2 = [float(v) for v in rng.choice([0.0, 1.5, -3.25, 10.0, 0.1], 2) * sc]
    names = {'1D': ('xmin', 'xmax'), '1DS': ('rmin', 'rmax'), '2DCirc': ('rmin', 'rmax')}[solver]
    unset = sph and rng.random() < 0.4
    bcs = {names[0]: (i1, 'unset' if unset else p1), names[1]: (i2, p2)}
    if solver == '1D':
        from UserMesh_y_Fields_FE_XYZ_Module import UserPoissonSolve1D_C as PS
    elif solver == '1DS':
        from UserMesh_y_Fields_Spherical1D_Module import UserPoissonSolve1DS_C as PS
    else:
        from UserMesh_y_Fields_FE2D_Module import UserPoissonSolve2DCirc_C as PS
    ls, pc = case['linear']
    if not f2 and (unset or True):
        # a tiny mesh without room for two separate boundaries
        bcs[names[1]] = (i2, p2)
    S = PS(phi, ls, pc, field_boundary_marker=marker, phi_BCs=bcs, neg_electric_field=negE)
    df.set_log_level(50)
    sysm = System(phi.function_space, g, deg, sph)
    # degrees of freedom on the marked facets
    X = phi.function_space.tabulate_dof_coordinates().reshape(-1, gd)
    fixed = np.full(sysm.n, np.nan)
    for fs, val, on in ((f1, p1, not unset), (f2, p2, True)):
        if not on:
            continue
        for f in fs:
            if gd == 1:
                hit = np.abs(X[:, 0] - g.P[f, 0, 0]) < 1e-9 * g.L
            else:
                c = g.fcells[f][0]
                li = int(np.nonzero(g.cfacets[c] == f)[0][0])
                lam = np.einsum('nj,jk->nk', np.concatenate([X, np.ones((len(X), 1))], axis=1), g.inv[c])
                hit = (np.abs(lam[:, li]) < 1e-9) & (lam.min(axis=1) > -1e-9)
            fixed[hit] = val
    free = np.isnan(fixed)
    if not np.any(~free):
        return
    A = eps * sysm.A
    history = []
    charges = []
    for step in range(case['solves']):
        op = str(rng.choice(['expr', 'string', 'charge', 'charge', 'charge_factor', 'repeat', 'zero'])) if step else str(rng.choice(['zero-initial', 'charge', 'expr']))
        if op == 'repeat' and history:
            op, arg, b = history[int(rng.integers(0, len(history)))]
            R.count('repeated')
        elif op in ('expr', 'zero', 'zero-initial', 'repeat'):
            op = 'zero-initial' if op == 'zero-initial' else 'expr'
            arg = 0.0 if op == 'zero-initial' else (None, 0.0, 2, float(rng.normal() * sc))[int(rng.integers(0, 4))]
            b = sysm.load(lambda x: float(arg or 0.0))
        elif op == 'string':
            arg, fn = STRINGS[gd][int(rng.integers(0, len(STRINGS[gd])))]
            b = sysm.load(fn)
        else:
            F = DM.Field_C(pm, element_type='CG', element_degree=deg, field_type='scalar')
            F.function_values[:] = rng.normal(0, 1, sysm.n) * sc * eps * 10.0 ** rng.integers(-2, 3) * float(np.abs(sysm.A).max())
            factor = None if op == 'charge' else float(rng.choice([0.0, 1.0, -1.0, 0.5, 1e-3, 7.0]))
            arg = (F, factor, F.function_values.get_local().copy())
            b = arg[2] * (1.0 if factor is None else factor)
        S.pde_has_constant_coeffs = bool(rng.random() < 0.8)        # otherwise the matrix is assembled at every solve
        if op in ('expr', 'string'):
            S.assemble_source_expression(arg)
            S.solve_for_phi()
        elif op == 'zero-initial':
            S.solve_for_phi()
        else:
            F, factor, vals = arg
            kw = {} if factor is None else dict(assembled_charge_factor=factor)
            S.solve_for_phi(assembled_charge=F, **kw)
            R.check(np.array_equal(F.function_values.get_local(), vals), 'source-altered', 'solving changed the caller\'s charge density')
            R.count('charge_solves')
        if op != 'zero-initial':
            history.append((op, arg, b))
        R.count('solves')
        R.count('spherical_solves', sph)
        U = phi.function_values.get_local()
        R.check(np.array_equal(U, phi.function.vector().get_local()), 'phi-alias', 'the potential and its values differ')
        if not R.check(bool(np.all(np.isfinite(U))), 'not-finite', 'the potential is not finite'):
            return
        size = np.abs(U).max() + 1e-300
        R.check(np.all(np.abs(U[~free] - fixed[~free]) <= 1e-9 * max(size, np.abs(fixed[~free]).max())), 'dirichlet',
                lambda: 'potential %r on a boundary where %r is prescribed' % (U[~free][:6].tolist(), fixed[~free][:6].tolist()))
        res = A @ U - b
        scale = np.abs(A) @ np.abs(U) + np.abs(b)
        tol = 1e-8 * np.maximum(scale, 1e-6 * (scale.max() + 1e-300)) + 1e-9 * np.abs(A).max() * size * 1e-3
        R.count('equations', int(free.sum()))
        bad = np.nonzero(free & (np.abs(res) > tol))[0]
        R.check(not len(bad), 'residual', lambda: 'solve %d (%s): equation %d of the discrete system is off by %g (its terms are of size %g)' % (
            step, op, bad[0], res[bad[0]], scale[bad[0]]))
        if negE is not None:
            E = negE.function_values.get_local()
            R.check(np.array_equal(E, negE.function.vector().get_local()), 'E-alias', 'the field and its values differ after a solve')
            VS = negE.function_space
            for c in range(g.nc):
                d = sysm.S.dofs(c)
                for x in (g.mid[c], g.random_point(rng, c)):
                    G = np.einsum('bg,b->g', sysm.grad(c, np.array([x]))[0], U[d])
                    import fe
                    got = fe.vector_value(VS, g, deg - 1, E, c, x)
                    R.count('gradients')
                    gs = np.abs(U[d]).max() / g.h[c]
                    R.check(np.all(np.abs(got - G) <= 1e-7 * max(gs, 1e-300) + 1e-9 * np.abs(E).max()), 'gradient',
                            lambda: 'solve %d (%s): in cell %d the field -E is %r, the gradient of the potential %r' % (step, op, c, got.tolist(), G.tolist()))
        R.sig(solver, gd, deg, op, unset, ls, negE is not None, min(step, 3))
