"""User meshes: domain, cell counts and boundary markers against direct geometry."""
import numpy as np
import dolfin as df
from geo import Geo


def same_points(R, X, want, tol, what):
    X, want = np.asarray(X), np.asarray(want)
    if not R.check(len(X) == len(want), 'vertex-count:' + what, lambda: '%d vertices, expected %d' % (len(X), len(want))):
        return False
    d = np.linalg.norm(X[:, None, :] - want[None, :, :], axis=2) if len(X) * len(want) < 400000 else None
    R.count('vertices', len(X))
    ok = bool(np.all(d.min(axis=1) < tol) and np.all(d.min(axis=0) < tol))
    return R.check(ok, 'vertices:' + what, lambda: 'vertex %r is not one of the stated mesh (or one is missing); worst distances %g, %g' % (
        X[d.min(axis=1).argmax()].tolist(), d.min(axis=1).max(), d.min(axis=0).max()))


def conforming(R, g, area, what):
    R.check(all(1 <= len(c) <= 2 for c in g.fcells), 'conforming:' + what, 'a facet belongs to no cell or to more than two')
    R.count('cells', g.nc)
    R.check(abs(g.vol.sum() - area) <= 1e-9 * area, 'area:' + what, lambda: 'the cells add up to %r, the domain has %r' % (g.vol.sum(), area))
    R.check(g.vol.min() > 1e-9 * g.vol.max(), 'degenerate:' + what, 'a cell has no volume')


def markers(R, marker, g, where, what):
    """where: facet -> expected tag (0 if none)"""
    got = np.array([int(marker[int(f)]) for f in range(g.nf)])
    want = np.array([where(f) for f in range(g.nf)])
    R.count('facets', g.nf)
    R.count('marked_facets', int((want != 0).sum()))
    bad = np.nonzero(got != want)[0]
    R.check(not len(bad), 'marker:' + what, lambda: 'facet %d at %r carries %d, it should carry %d (%d facets wrong)' % (
        bad[0], g.P[bad[0]].tolist(), got[bad[0]], want[bad[0]], len(bad)))


def tags(rng, names):
    t = rng.choice(np.arange(1, 200), len(names), replace=False)
    return {n: int(v) for n, v in zip(names, t)}


def xyz(case, R, rng):
    import UserMesh_y_Fields_FE_XYZ_Module as M
    d = case['gdim']
    mi = M.UserMeshInput_C()
    scale = float(10.0 ** rng.integers(-3, 4))
    lo = rng.uniform(-2, 2, d) * scale
    if rng.random() < 0.3:
        lo[:] = 0.0
    hi = lo + rng.uniform(0.2, 3, d) * scale
    n = [int(v) for v in rng.integers(1, [20, 7, 4][d - 1], d)]
    mi.pmin, mi.pmax = df.Point(*lo), df.Point(*hi)
    mi.cells_on_side = tuple(n)
    names = ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax'][:2 * d]
    diag = None
    if d == 2:
        diag = mi.diagonal = [None, 'left', 'right', 'left/right', 'crossed'][int(rng.integers(0, 5))]
    pb = tags(rng, names) if rng.random() < 0.8 else None
    fb = tags(rng, names) if d == 1 and rng.random() < 0.7 else None
    mi.particle_boundary_dict, mi.field_boundary_dict = pb, fb
    broken = case.get('broken')
    if broken:
        if broken == 'count':
            mi.cells_on_side = tuple(n + [2]) if rng.random() < 0.5 else tuple(n[:-1])
        elif broken == 'name':
            pb = mi.particle_boundary_dict = tags(rng, names)
            del pb[names[int(rng.integers(0, len(names)))]]
        elif broken == 'field':
            if d == 1:
                fb = mi.field_boundary_dict = tags(rng, names)
                del fb[names[int(rng.integers(0, 2))]]
            else:
                mi.field_boundary_dict = tags(rng, names)
        elif broken == 'zero':
            k = int(rng.integers(0, d))
            mi.cells_on_side = tuple(0 if i == k else v for i, v in enumerate(n))
        else:
            if rng.random() < 0.5:
                mi.pmin = None
            else:
                mi.pmax = None
        return refused(R, lambda: M.UserMesh_C(mi), 'XYZ:' + broken)
    m = M.UserMesh_C(mi, compute_dictionaries=bool(rng.random() < 0.3), compute_tree=bool(rng.random() < 0.3))
    g = Geo(m.mesh)
    R.check(g.g == d, 'dimension', 'the mesh has dimension %d' % g.g)
    ax = [lo[i] + (hi[i] - lo[i]) * np.arange(n[i] + 1) / n[i] for i in range(d)]
    want = np.stack([a.ravel() for a in np.meshgrid(*ax, indexing='ij')], axis=1)
    per = [1, 2, 6][d - 1]
    if diag == 'crossed':
        per = 4
        want = np.concatenate([want, np.stack([a.ravel() for a in np.meshgrid(*[0.5 * (a[1:] + a[:-1]) for a in ax], indexing='ij')], axis=1)])
    R.check(g.nc == per * int(np.prod(n)), 'cell-count:XYZ', lambda: '%d cells for %r per side' % (g.nc, n))
    if not same_points(R, g.X, want, 1e-9 * g.L + 1e-12, 'XYZ'):
        return
    conforming(R, g, float(np.prod(hi - lo)), 'XYZ')

    def where(dic):
        def w(f):
            if not g.exterior[f]:
                return 0
            for i in range(d):
                for v, nm in ((lo[i], names[2 * i]), (hi[i], names[2 * i + 1])):
                    if np.all(np.abs(g.P[f, :, i] - v) < 1e-9 * g.L):
                        return dic[nm]
            return 0
        return w
    if pb:
        markers(R, m.particle_boundary_marker, g, where(pb), 'XYZ-particle')
        R.check(dict(m.particle_boundary_dict) == pb, 'dict', 'particle_boundary_dict is not the one given')
    else:
        R.check(m.particle_boundary_marker is None or not any(m.particle_boundary_marker[int(f)] for f in range(g.nf)), 'marker-none', 'boundaries marked though none were named')
    if fb:
        markers(R, m.field_boundary_marker, g, where(fb), 'XYZ-field')
        R.check(dict(m.field_boundary_dict) == fb, 'dict', 'field_boundary_dict is not the one given')
    R.sig('xyz', d, diag, bool(pb), bool(fb), min(n) == 1)


def circ(case, R, rng):
    import UserMesh_y_Fields_FE2D_Module as M
    mi = M.UserMeshInput2DCirc_C()
    scale = float(10.0 ** rng.integers(-2, 3))
    r0 = mi.rmin = float(rng.uniform(0.5, 2) * scale)
    r1 = mi.rmax = r0 + float(rng.uniform(0.5, 4) * scale)
    nr = mi.nr = int(rng.integers(1, 6))
    tmax = mi.tmax = float(rng.choice([np.pi / 2, np.pi / 4, 1.0, np.pi, 0.1, 3 * np.pi / 2]))
    nt = mi.nt = int(np.ceil(tmax / 0.25)) + int(rng.integers(0, 4))
    s = mi.stretch = float(rng.choice([1.0, 1.3, 2.0, 0.8]))
    diag = mi.diagonal = str(rng.choice(['left', 'right', 'left/right', 'crossed']))
    pb = mi.particle_boundary_dict = tags(rng, ['rmin', 'rmax', 'thmin', 'thmax']) if rng.random() < 0.8 else None
    fb = mi.field_boundary_dict = tags(rng, ['rmin', 'rmax']) if rng.random() < 0.8 else None
    if case.get('broken'):
        b = case['broken']
        if b == 'name':
            mi.particle_boundary_dict = tags(rng, ['rmin', 'rmax', 'thmin', 'thmax'])
            del mi.particle_boundary_dict[str(rng.choice(['rmin', 'rmax', 'thmin', 'thmax']))]
        elif b == 'field':
            mi.field_boundary_dict = tags(rng, ['rmin', 'rmax'])
            del mi.field_boundary_dict[str(rng.choice(['rmin', 'rmax']))]
        elif b == 'zero':
            setattr(mi, str(rng.choice(['nr', 'nt'])), 0)
        else:
            setattr(mi, str(rng.choice(['rmin', 'rmax', 'nr', 'nt', 'tmax', 'stretch'])), None)
        return refused(R, lambda: M.UserMesh2DCirc_C(mi), '2DCirc:' + b)
    m = M.UserMesh2DCirc_C(mi, compute_dictionaries=bool(rng.random() < 0.3), compute_tree=bool(rng.random() < 0.3))
    g = Geo(m.mesh)
    q = np.arange(nr + 1) / nr
    t = np.arange(nt + 1) / nt

    def polar(q, t):
        Q, T = np.meshgrid(q, t, indexing='ij')
        r = r0 + (r1 - r0) * Q.ravel() ** s
        th = tmax * T.ravel()
        return np.stack([r * np.cos(th), r * np.sin(th)], axis=1)
    want = polar(q, t)
    if diag == 'crossed':
        want = np.concatenate([want, polar(0.5 * (q[1:] + q[:-1]), 0.5 * (t[1:] + t[:-1]))])
    R.check(g.nc == (4 if diag == 'crossed' else 2) * nr * nt, 'cell-count:2DCirc', lambda: '%d cells for %d x %d' % (g.nc, nr, nt))
    if not same_points(R, g.X, want, 1e-9 * g.L, '2DCirc'):
        return
    conforming(R, g, nt * 0.5 * (r1 ** 2 - r0 ** 2) * np.sin(tmax / nt), '2DCirc')

    def where(dic):
        def w(f):
            if not g.exterior[f]:
                return 0
            P = g.P[f]
            r = np.linalg.norm(P, axis=1)
            th = np.mod(np.arctan2(P[:, 1], P[:, 0]) + 1e-9, 2 * np.pi) - 1e-9
            for nm, ok in (('rmin', np.all(np.abs(r - r0) < 1e-9 * g.L)), ('rmax', np.all(np.abs(r - r1) < 1e-9 * g.L)),
                           ('thmin', np.all(np.abs(th) < 1e-8)), ('thmax', np.all(np.abs(th - tmax) < 1e-8))):
                if ok:
                    return dic.get(nm, 0)
            return -1
        return w
    check_two(R, m, g, where, pb, fb, '2DCirc')
    R.sig('circ', diag, s, round(tmax, 2), bool(pb), bool(fb), nr == 1)
    if rng.random() < 0.5:
        reread(R, rng, M.UserMeshInput2DCirc_C, M.UserMesh2DCirc_C, m, g, where, pb, fb, '2DCirc')


def radial(case, R, rng):
    import UserMesh_y_Fields_Spherical1D_Module as M
    mi = M.UserMeshInput1DS_C()
    scale = float(10.0 ** rng.integers(-2, 3))
    r0 = mi.rmin = float(rng.choice([0.0, rng.uniform(0.1, 2)]) * scale)
    r1 = mi.rmax = r0 + float(rng.uniform(0.5, 4) * scale)
    nr = mi.nr = int(rng.integers(1, 30))
    s = mi.stretch = float(rng.choice([1.0, 1.3, 2.0, 0.7]))
    pb = mi.particle_boundary_dict = tags(rng, ['rmin', 'rmax']) if rng.random() < 0.8 else None
    fb = mi.field_boundary_dict = tags(rng, ['rmin', 'rmax']) if rng.random() < 0.8 else None
    if case.get('broken'):
        b = case['broken']
        if b in ('name', 'field'):
            dic = tags(rng, ['rmin', 'rmax'])
            del dic[str(rng.choice(['rmin', 'rmax']))]
            setattr(mi, 'particle_boundary_dict' if b == 'name' else 'field_boundary_dict', dic)
        elif b == 'zero':
            mi.nr = 0
        else:
            setattr(mi, str(rng.choice(['rmin', 'rmax', 'nr', 'stretch'])), None)
        return refused(R, lambda: M.UserMesh1DS_C(mi), '1DS:' + b)
    m = M.UserMesh1DS_C(mi, compute_dictionaries=bool(rng.random() < 0.3), compute_tree=bool(rng.random() < 0.3))
    g = Geo(m.mesh)
    want = (r0 + (r1 - r0) * (np.arange(nr + 1) / nr) ** s).reshape(-1, 1)
    R.check(g.nc == nr, 'cell-count:1DS', lambda: '%d cells for nr=%d' % (g.nc, nr))
    if not same_points(R, g.X, want, 1e-9 * g.L, '1DS'):
        return
    conforming(R, g, r1 - r0, '1DS')
    R.check(m.coordinate_system == '1D-spherical-radial', 'coordinates', 'coordinate system %r' % m.coordinate_system)

    def where(dic):
        def w(f):
            if not g.exterior[f]:
                return 0
            return dic['rmin' if abs(g.P[f, 0, 0] - r0) < abs(g.P[f, 0, 0] - r1) else 'rmax']
        return w
    check_two(R, m, g, where, pb, fb, '1DS')
    R.sig('radial', s, r0 == 0, bool(pb), bool(fb), nr == 1)
    if rng.random() < 0.5:
        reread(R, rng, M.UserMeshInput1DS_C, M.UserMesh1DS_C, m, g, where, pb, fb, '1DS')


def check_two(R, m, g, where, pb, fb, what):
    for dic, mk, kind in ((pb, m.particle_boundary_marker, 'particle'), (fb, m.field_boundary_marker, 'field')):
        if dic:
            markers(R, mk, g, where(dic), what + '-' + kind)
            R.check(dict(getattr(m, kind + '_boundary_dict')) == dic, 'dict', '%s_boundary_dict is not the one given' % kind)
        else:
            R.check(mk is None or not any(mk[int(f)] for f in range(g.nf)), 'marker-none', '%s boundaries marked though none were named' % kind)


def reread(R, rng, Input, Mesh, m, g, where, pb, fb, what):
    """the same mesh and markers supplied as files"""
    df.File('m.xml') << m.mesh
    mi = Input()
    mi.mesh_file = 'm.xml'
    mi.particle_boundary_dict, mi.field_boundary_dict = pb, fb
    for dic, mk, kind in ((pb, m.particle_boundary_marker, 'particle'), (fb, m.field_boundary_marker, 'field')):
        if dic:
            df.File(kind + '.xml') << mk
            setattr(mi, kind + '_boundary_file', kind + '.xml')
    m2 = Mesh(mi)
    g2 = Geo(m2.mesh)
    R.count('files_read')
    R.check(g2.nc == g.nc and g2.X.shape == g.X.shape and np.allclose(g2.X, g.X, rtol=1e-12, atol=1e-12 * g.L) and np.array_equal(g2.cells, g.cells), 'file-mesh:' + what,
            'the mesh read from a file differs from the one written')
    for dic, kind in ((pb, 'particle'), (fb, 'field')):
        if dic:
            markers(R, getattr(m2, kind + '_boundary_marker'), g2, where(dic), '%s-%s-file' % (what, kind))


def refused(R, make, what):
    R.count('refusals_tried')
    R.sig('refused', what)
    try:
        make()
    except (Exception, SystemExit):
        R.count('assertions')
        return
    R.check(False, 'accepted:' + what, 'a mesh with invalid or missing parameters (%s) was accepted' % what)


def run(case, R):
    rng = np.random.default_rng(case['seed'])
    {'xyz': xyz, 'circ': circ, 'radial': radial}[case['what']](case, R, rng)
