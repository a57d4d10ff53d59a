"""Mesh tables (Python dictionaries and C++ arrays) against geometry recomputed from the vertex lists."""
import numpy as np
import dolfin as df
from geo import Geo
from world import make_mesh


def near(a, b, s):
    return abs(a - b) <= 1e-9 * s


def tables(R, pm, g, case, who, spherical):
    NO = pm.NO_CELL
    nf = g.g + 1
    ids = list(range(g.nc))
    for name, d in (('cell_dict', pm.cell_dict), ('cell_vertices_dict', pm.cell_vertices_dict), ('cell_entity_indices_dict[facet]', pm.cell_entity_indices_dict['facet']),
                    ('cell_facet_normals_dict', pm.cell_facet_normals_dict), ('cell_neighbors_dict', pm.cell_neighbors_dict), ('cell_volume_dict', pm.cell_volume_dict)):
        if not R.check(sorted(int(k) for k in d) == ids, 'keys:' + name, lambda: '%s has keys %r for a mesh of %d cells' % (name, sorted(d), g.nc)):
            return
    fac = pm.cell_entity_indices_dict['facet']
    seen = {}
    for c in ids:
        R.count('cells')
        R.check([int(v) for v in pm.cell_vertices_dict[c]] == g.cells[c].tolist(), 'vertices', lambda: 'cell %d has vertices %r, the table says %r' % (c, g.cells[c].tolist(), pm.cell_vertices_dict[c]))
        cell = pm.cell_dict[c]
        R.check(int(cell.index()) == c, 'cell-object', lambda: 'cell_dict[%d] is cell %d' % (c, cell.index()))
        m = cell.midpoint()
        R.check(np.allclose([m.x(), m.y(), m.z()][:g.g], g.mid[c], rtol=1e-10, atol=1e-10 * g.L), 'midpoint', lambda: 'cell %d midpoint %r, expected %r' % (c, [m.x(), m.y(), m.z()], g.mid[c].tolist()))
        fs = [int(f) for f in fac[c]]
        if not R.check(sorted(fs) == sorted(g.cfacets[c].tolist()), 'facets', lambda: 'cell %d has facets %r, the table says %r' % (c, g.cfacets[c].tolist(), fs)):
            continue
        nb, nn = np.asarray(pm.cell_neighbors_dict[c]), np.asarray(pm.cell_facet_normals_dict[c])
        if not R.check(nb.shape == (nf,) and nn.shape == (nf, g.g), 'shape', lambda: 'cell %d: neighbour table %r, normals %r' % (c, nb.shape, nn.shape)):
            continue
        for i, f in enumerate(fs):
            R.count('cell_facets')
            other = [k for k in g.fcells[f] if k != c]
            want = other[0] if other else NO
            R.count('boundary_facets', not other)
            R.check(int(nb[i]) == want, 'neighbour', lambda: 'cell %d across facet %d: %d, expected %d' % (c, f, nb[i], want))
            seen[c, i] = int(nb[i])
            o = g.outward(c, f)
            R.check(np.all(np.abs(nn[i] - o) < 1e-9), 'normal', lambda: 'cell %d facet %d: normal %r, the outward unit normal is %r' % (c, f, nn[i].tolist(), o.tolist()))
        vol = pm.cell_volume_dict[c]
        if spherical:
            a, b = sorted(g.V[c, :, 0])
            want = 4.0 / 3.0 * np.pi * (b ** 3 - a ** 3)
            R.count('shell_volumes')
        else:
            want = g.vol[c]
        R.check(vol > 0 and near(vol, want, want), 'volume', lambda: 'cell %d volume %r, expected %r' % (c, vol, want))
    tot = sum(pm.cell_volume_dict.values())
    if spherical:
        want = 4.0 / 3.0 * np.pi * (g.X.max() ** 3 - g.X.min() ** 3)
        R.check(near(tot, want, want), 'total-volume', lambda: 'volumes sum to %r, the shell has %r' % (tot, want))
    else:
        # area/volume of the domain from its boundary alone (divergence theorem)
        want = 0.0
        for f in np.nonzero(g.exterior)[0]:
            o = g.outward(g.fcells[f][0], f)
            if g.g == 1:
                size = 1.0
            elif g.g == 2:
                size = np.linalg.norm(g.P[f, 1] - g.P[f, 0])
            else:
                size = 0.5 * np.linalg.norm(np.cross(g.P[f, 1] - g.P[f, 0], g.P[f, 2] - g.P[f, 0]))
            want += float((g.P[f].mean(axis=0) - g.X[0]) @ o) * size / g.g
        R.check(near(tot, want, want), 'total-volume', lambda: 'volumes sum to %r, the domain has %r' % (tot, want))
    # vertex -> cells
    vc = pm.vertex_cells_dict
    inc = {}
    for c in ids:
        for v in g.cells[c].tolist():
            inc.setdefault(v, set()).add(c)
    R.check({int(v): sorted(int(k) for k in l) for v, l in vc.items()} == {v: sorted(s) for v, s in inc.items()}, 'vertex-cells', 'vertex_cells_dict does not list the cells at each vertex')


def cpp(R, pm, g):
    NO = pm.NO_CELL
    fac = pm.cell_entity_indices_dict['facet']
    for c in range(g.nc):
        R.count('cpp_cells')
        nb = [int(k) for k in pm.mea_object.get_cell_neighbors(c)]
        nn = np.array(pm.mea_object.get_cell_facet_normals(c), dtype=float).reshape(g.g + 1, 3)
        R.check(nb == [int(k) for k in pm.cell_neighbors_dict[c]], 'cpp-neighbours', lambda: 'cell %d: C++ neighbours %r, Python %r' % (c, nb, pm.cell_neighbors_dict[c].tolist()))
        for i, f in enumerate(fac[c]):
            o = g.outward(c, int(f))
            v = np.zeros(3)
            v[:g.g] = o
            got = nn[i]
            R.check(np.all(np.abs(got[:g.g] - o) < 1e-9) and np.all(np.abs(got[g.g:]) < 1e-12), 'cpp-normal', lambda: 'cell %d facet %d: C++ normal %r, the outward unit normal is %r' % (c, f, got.tolist(), o.tolist()))
            other = [k for k in g.fcells[int(f)] if k != c]
            R.check(nb[i] == (other[0] if other else NO), 'cpp-neighbour', lambda: 'cell %d across facet %d: C++ says %d, expected %r' % (c, f, nb[i], other))


def renumbered(rng, mesh):
    """the same mesh with cells and vertices numbered in another order"""
    d = mesh.topology().dim()
    X, C = mesh.coordinates().copy(), mesh.cells().copy()
    pv = rng.permutation(len(X))
    inv = np.argsort(pv)
    pc = rng.permutation(len(C))
    m2 = df.Mesh()
    ed = df.MeshEditor()
    ed.open(m2, ['', 'interval', 'triangle', 'tetrahedron'][d], d, d)
    ed.init_vertices(len(X))
    ed.init_cells(len(C))
    for i in range(len(X)):
        ed.add_vertex(i, X[pv[i]])
    for i in range(len(C)):
        ed.add_cell(i, np.array(sorted(inv[C[pc[i]]]), dtype=np.uintp))
    ed.close()
    return m2


def run(case, R):
    import Dolfin_Module as DM
    rng = np.random.default_rng(case['seed'])
    spherical = case.get('spherical', False)
    mesh = make_mesh(rng, case['gdim'], case.get('mesh'), spherical=spherical)
    if case.get('cells') == 'shuffled':
        mesh = renumbered(rng, mesh)
    cs = '1D-spherical-radial' if spherical else 'Cartesian'
    kw = dict(coordinate_system=cs, compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
    if case['how'] == 'copy':
        pm = DM.Mesh_C(mesh_to_copy=mesh, **kw)
    elif case['how'] == 'file':
        df.File('mesh.xml') << mesh
        pm = DM.Mesh_C(mesh_file='mesh.xml', **kw)
    elif case['how'] == 'particles':
        import Particle_Module as PM
        pm = DM.Mesh_C(Mesh=mesh, coordinate_system=cs, compute_cpp_arrays=True)
        pm.compute_cell_dict()
        pm.compute_vertex_cells_dict()
        P = PM.Particle_C.__new__(PM.Particle_C)
        P.use_cpp_integrators = False
        P.initialize_particle_mesh(pm)
        P.use_cpp_integrators = True
        P.initialize_particle_mesh(pm)
    else:
        pm = DM.Mesh_C(Mesh=mesh, **kw)
    g = Geo(pm.mesh)
    R.check(pm.gdim == g.g and pm.tdim == g.g, 'dimension', 'wrong mesh dimension')
    if case['how'] == 'file':
        R.check(np.allclose(np.sort(pm.mesh.coordinates(), axis=0), np.sort(mesh.coordinates(), axis=0), rtol=1e-12), 'file', 'the mesh read from the file is another one')
    tables(R, pm, g, case, 'first', spherical)
    cpp(R, pm, g)
    if case.get('again'):
        # recomputing the tables, in any order, changes nothing
        for k in rng.permutation(6):
            [pm.compute_cell_neighbors_dict, pm.compute_cell_facet_normals_dict, pm.compute_vertex_cells_dict, pm.compute_cell_volume_dict, pm.compute_cell_vertices_dict,
             lambda: pm.compute_cell_entity_indices_dict('facet')][int(k)]()
        pm.compute_cpp_arrays()
        tables(R, pm, g, case, 'again', spherical)
        cpp(R, pm, g)
    if case.get('twin'):
        # another mesh that has much in common with the first one, beside it; and the first one once more
        if case['twin'] == 'numbers':
            m2 = renumbered(rng, pm.mesh)
        else:
            m2 = df.Mesh(pm.mesh)
            X = m2.coordinates()
            X[:, 0] = (X[:, 0].min() + X[:, 0].max()) - X[:, 0]
            if g.g > 1:
                X[:, 1] *= float(rng.choice([1.0, 3.0]))
        p2 = DM.Mesh_C(Mesh=m2, **kw)
        g2 = Geo(p2.mesh)
        tables(R, p2, g2, case, 'twin', spherical)
        cpp(R, p2, g2)
        tables(R, pm, g, case, 'beside a twin', spherical)
        cpp(R, pm, g)
        R.count('twins')
    R.sig(g.g, spherical, case['how'], case.get('twin'), case.get('cells'), case.get('again'), g.nc)
