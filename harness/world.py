"""Random particle-in-cell scenarios run on the real code, with every boundary call recorded.

World(case) builds mesh, species, fields, boundary conditions and particles through the public
interface (Particle_C, Mesh_C, Field_C, DTcontrol_C, the boundary-condition classes); step() advances
and returns what was observed.  predict() is the reference: it uses only geometry (geo.py), the field
values dolfin evaluates, and the equations of motion."""
import importlib
import types
import numpy as np
import dolfin as df
from geo import Geo

INFO = {'cartesian_x': (1, ['x']), 'cartesian_xy': (2, ['x', 'y']), 'cartesian_xyz': (3, ['x', 'y', 'z']), 'spherical_r': (1, ['r'])}


def signed_volumes(X, cells):
    V = X[cells]
    return np.linalg.det(V[:, 1:] - V[:, :1]) if X.shape[1] > 1 else V[:, 1, 0] - V[:, 0, 0]


def make_mesh(rng, dim, kind=None, small=False, spherical=False):
    """a mesh with irregular geometry that is a valid one: moving the vertices about has folded no cell over
    (every cell keeps its orientation and a reasonable part of the volume it should have)"""
    for _ in range(60):
        m, before = make_mesh1(rng, dim, kind, small, spherical)
        after = signed_volumes(m.coordinates(), m.cells())
        r = after / before
        if abs(np.sign(r).sum()) == len(r) and np.abs(r).min() > 0.05 * np.abs(r).max():
            return m
    raise RuntimeError('no valid mesh found')


def make_mesh1(rng, dim, kind, small, spherical):
    scale = float(10.0 ** rng.integers(-2, 3))
    large = kind == 'large'         # more cells than 16-bit numbers can tell apart
    medium = kind == 'medium'       # moves across more cells than 7- or 8-bit numbers can count
    if medium:
        kind = None
    if large:
        scale = max(scale, 1.0)
    if dim == 1:
        n = int(rng.integers(66000, 72000)) if large else int(rng.integers(150, 700)) if medium else int(rng.integers(1, 9 if small else 14))
        a = float(rng.uniform(0.2, 2.0)) if spherical else float(rng.uniform(-2, 2))
        m = df.IntervalMesh(n, a, a + float(rng.uniform(0.5, 3)))
        X = m.coordinates()
        before = signed_volumes(X.copy(), m.cells())
        x = X[:, 0].copy()
        h = (x.max() - x.min()) / n
        x[1:-1] += rng.uniform(-0.4, 0.4, len(x) - 2) * h
        if kind == 'reversed' and not spherical:
            x = -x
        X[:, 0] = x * scale
    elif dim == 2:
        nx, ny = int(rng.integers(1, 4 if small else 6)), int(rng.integers(1, 4 if small else 6))
        if large:
            nx, ny = int(rng.integers(180, 195)), int(rng.integers(185, 195))
        if medium:
            nx, ny = [(40, 40), (150, 3), (2, 200)][int(rng.integers(0, 3))]
        diag = ['left', 'right', 'crossed', 'left/right'][int(rng.integers(0, 4))]
        m = df.RectangleMesh(df.Point(0, 0), df.Point(1, 1), nx, ny, diag)
        X = m.coordinates()
        Y = X.copy()
        before = signed_volumes(Y, m.cells())
        inner = (X > 1e-9).all(axis=1) & (X < 1 - 1e-9).all(axis=1)
        Y[inner] += rng.uniform(-0.2, 0.2, (inner.sum(), 2)) / np.array([nx, ny]) * (0.5 if diag == 'crossed' else 1.0)
        k = kind if kind and not large else ['box', 'annulus', 'skew'][int(rng.integers(0, 3))]
        if k == 'annulus':
            r = 1.0 + 1.5 * Y[:, 0]
            th = Y[:, 1] * float(rng.uniform(0.4, 1.4))
            Y = np.stack([r * np.cos(th), r * np.sin(th)], axis=1)
        elif k == 'skew':
            A = np.array([[1.0 + rng.uniform(0, 1), rng.uniform(-0.5, 0.5)], [rng.uniform(-0.5, 0.5), 1.0 + rng.uniform(0, 1)]])
            Y = Y @ A.T + rng.uniform(-2, 2, 2)
        else:
            Y = Y * rng.uniform(0.5, 2, 2) + rng.uniform(-2, 2, 2)
        if kind == 'needle':        # long thin cells lying in any direction
            t = float(rng.choice([0.0, rng.uniform(0, np.pi)]))
            Y = (Y * [1.0, rng.uniform(0.08, 0.4)]) @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        X[:, :] = Y * scale
    else:
        nn = [int(rng.integers(23, 25)) if large else int(rng.integers(1, 3)) for _ in range(3)]
        if medium:
            nn = [(9, 9, 9), (60, 2, 1), (1, 1, 80)][int(rng.integers(0, 3))]
        m = df.BoxMesh(df.Point(0, 0, 0), df.Point(1, 1, 1), *nn)
        X = m.coordinates()
        Y = X.copy()
        before = signed_volumes(Y, m.cells())
        inner = (X > 1e-9).all(axis=1) & (X < 1 - 1e-9).all(axis=1)
        Y[inner] += rng.uniform(-0.08, 0.08, (inner.sum(), 3)) * 2.0 / max(max(nn), 2)
        Y = Y * rng.uniform(0.5, 2, 3) + rng.uniform(-2, 2, 3)
        if kind == 'needle':
            Q = np.linalg.qr(rng.normal(0, 1, (3, 3)))[0]
            Y = (Y * [1.0, rng.uniform(0.3, 1), rng.uniform(0.3, 0.6)]) @ (Q if rng.random() < 0.7 else np.eye(3))
        X[:, :] = Y * scale
    return m, before


def shipped(engine, coord, seed):
    """a module of the library with boundary functions, and what they are documented to do"""
    if engine == 'py':
        if coord == 'cartesian_xy':
            return 'UserParticles_2D_e', {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}
        if coord == 'cartesian_xyz':
            return 'UserParticles_3D', {'default_bc_at_xmin': 'absorb', 'default_bc_at_ymin': 'absorb', 'bc_at_xmin_for_neutral_H': 'absorb'}
        return 'UserParticles_1D', {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect', 'default_bc_at_rmax': 'absorb', 'bc_at_rmin_for_neutral_H': 'absorb'}
    if coord == 'spherical_r':
        return 'upbfs_spherical_r_solib', {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect'}
    name = 'user_particle_boundary_functions_%s_solib' % coord
    if coord == 'cartesian_xy' and seed % 2:
        name = 'user_particle_boundary_functions_2D_e_cartesian_xy_solib'
    return name, {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}


class World:
    def __init__(self, case, engine=None):
        self.case = case
        self.engine = engine or case['engine']
        rng = self.rng = np.random.default_rng(case['seed'])
        import Particle_Module as PM
        import Dolfin_Module as DM
        import DT_Module as DT
        self.PM, self.DM = PM, DM
        self.coord = case['coord']
        self.pdim, self.pos = INFO[self.coord]
        self.x0n = [c + '0' for c in self.pos]
        self.un = ['u' + c for c in self.pos]
        self.gdim = case.get('gdim', self.pdim)
        spherical = self.coord == 'spherical_r'
        mesh = make_mesh(rng, self.gdim, case.get('mesh'), case.get('small', False), spherical)
        self.geo = Geo(mesh)
        PM.Particle_C.SEGMENT_LENGTH = case['L']
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = self.coord
        pin.force_components = self.pos[:self.gdim] if any(k == 'charged' for k in case['species']) else None
        pin.force_precision = np.float64
        pin.use_cpp_integrators = self.engine == 'cpp'
        known = case.get('known', ['test_electrons', 'e_', 'neutral_H', 'He']) if case.get('bc') == 'shipped' else ['e_', 'e', 'H_plus', 'He']
        self.names = [known[i] for i in range(len(case['species']))]
        sp = []
        self.q, self.m, self.kind = {}, {}, dict(zip(self.names, case['species']))
        for n, k in zip(self.names, case['species']):
            self.q[n] = float(rng.choice([-1.0, 1.0, 2.0]) * rng.uniform(0.5, 2)) if k == 'charged' else 0.0
            self.m[n] = float(rng.uniform(0.5, 3))
            sp.append(PM.ParticleSpecies_C(n, self.q[n], self.m[n], k))
        pin.particle_species = tuple(sp)
        self.P = PM.Particle_C(pin)
        self.PC = PM.Particle_C
        ctrl = self.ctrl = DT.DTcontrol_C()
        ctrl.dt = float(rng.choice([0.25, 1.0, 0.3, 1e-3, 7.0]))
        ctrl.timeloop_count = 0
        ctrl.time = float(rng.choice([0.0, 0.0, 3.5]))
        # some worlds use the far ends of the ranges of numbers: large identity numbers, markers and step counts, tiny time
        # steps, weights over many decades, high flag bits
        far = self.far = np.random.default_rng(case['seed'] + 555)
        self.is_far = bool(far.random() < 0.25) and case.get('far', True)
        if self.is_far:
            ctrl.timeloop_count = int(far.choice([0, 99, 40000, 70000]))
            if far.random() < 0.5:
                ctrl.dt, ctrl.time = float(far.choice([2.0e-9, 3.0e-5, 500.0])), float(ctrl.timeloop_count) * 1e-9
        ctrl.n_timesteps = 1000
        ctrl.MAX_FACET_CROSS_COUNT = 20000
        ctrl.apply_solved_electric_field = None
        ctrl.apply_random_external_electric_field = None
        self.t0 = ctrl.time
        pm = self.pm = DM.Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if spherical else 'Cartesian',
                                 compute_tree=True)
        self.boundaries(rng)
        self.fields(rng)
        self.P.initialize_particle_mesh(pm)
        pm.compute_cell_dict()
        if not case.get('uniform'):
            self.P.initialize_particle_integration()
            self.bcs()
        self.uid = int(far.choice([0, 250, 32760, 65530, 2**24, 2**31 - 200000])) if self.is_far else 0
        self.log = []
        self.last_E = {}

    # ---------------------------------------------------------------- boundaries
    def boundaries(self, rng):
        """tags, the user's functions, and which behaviour each function has"""
        g, case = self.geo, self.case
        nb = int(rng.integers(1, 4))
        bn = ['min', 'xmin', 'wall_for_e', 'out'][:nb]
        if case.get('bc') == 'shipped':
            self.shipped, fns = shipped(self.engine, self.coord, case['seed'])
            bn = ['xmin', 'ymin'] if self.coord == 'cartesian_xyz' and self.engine == 'py' else ['rmin', 'rmax']
            nb = len(bn)
        tags = rng.choice(np.arange(1, 60), nb + 1, replace=False)
        if self.is_far:
            tags = tags + self.far.choice([0, 256, 2 * 256, 65536, 2**20], nb + 1)
            if self.far.random() < 0.3:
                tags = int(tags[0]) + int(self.far.choice([256, 65536])) * np.arange(nb + 1)
        self.bdict = {b: int(t) for b, t in zip(bn, tags)}
        self.interior = None
        marker = df.MeshFunction('size_t', self.pm.mesh, g.g - 1)
        marker.set_all(0)
        arr = np.zeros(g.nf, dtype=int)
        ext = np.nonzero(g.exterior)[0]
        arr[ext] = rng.choice([self.bdict[b] for b in bn], len(ext))
        pint = case.get('p_interior', 0.3)
        if rng.random() < (0.5 if pint else 0) and case.get('bc') != 'shipped':
            self.interior = 'inner'
            self.bdict['inner'] = int(tags[nb])
            inn = np.nonzero(~g.exterior)[0]
            arr[inn] = np.where(rng.random(len(inn)) < pint, self.bdict['inner'], 0)
        for f in range(g.nf):
            marker[f] = int(arr[f])
        self.tag = arr
        self.pm.particle_boundary_marker = marker
        self.pm.particle_boundary_dict = dict(self.bdict)
        self.inv = {v: k for k, v in self.bdict.items()}
        mode = case.get('bc', 'mixed')

        def ext_behaviour():
            return mode if mode in ('absorb', 'reflect') else str(rng.choice(['absorb', 'reflect']))
        inner_modes = ['pass', 'pass', 'absorb'] if case.get('inner_absorb', True) else ['pass']
        fns = fns if case.get('bc') == 'shipped' else {}
        # global default: only where every boundary may use it (never for the interior one unless it absorbs)
        if mode == 'shipped':
            bn = []
        elif rng.random() < 0.6 or not case.get('specific', True):
            fns['default_bc'] = ext_behaviour()
        for b in bn:
            if 'default_bc' not in fns or rng.random() < 0.5:
                fns['default_bc_at_' + b] = ext_behaviour()
            for s in self.names:
                if rng.random() < 0.4:
                    fns['bc_at_%s_for_%s' % (b, s)] = ext_behaviour()
        if self.interior:
            fns['default_bc_at_inner'] = str(rng.choice(inner_modes))
            for s in self.names:
                if rng.random() < 0.4:
                    fns['bc_at_inner_for_%s' % s] = str(rng.choice(inner_modes))
        self.fns = fns
        # what the user expects to be called
        self.expect = {}
        for b in self.bdict:
            for s in self.names:
                for n in ('bc_at_%s_for_%s' % (b, s), 'default_bc_at_' + b, 'default_bc'):
                    if n in fns:
                        self.expect[b, s] = n
                        break

    def remark(self, rng):
        """the user marks the boundaries anew: in the marker in use, or with a new one"""
        g = self.geo
        outer = [t for b, t in self.bdict.items() if b != 'inner']
        ext = np.nonzero(g.exterior)[0]
        self.tag = np.array(self.tag)
        self.tag[ext] = rng.choice(outer, len(ext))
        if self.interior:
            inn = np.nonzero(~g.exterior)[0]
            self.tag[inn] = np.where(rng.random(len(inn)) < 0.4, self.bdict['inner'], 0)
        if rng.random() < 0.5:
            self.pm.particle_boundary_marker = df.MeshFunction('size_t', self.pm.mesh, g.g - 1)
        for f in range(g.nf):
            self.pm.particle_boundary_marker[f] = int(self.tag[f])

    def bcs(self):
        if self.case.get('bc') == 'shipped':
            # the boundary functions that come with the library
            mod = importlib.import_module(self.shipped)
            if self.engine == 'py':
                C = mod.UserParticleBoundaryFunctions_C
                self.upbf = C() if self.coord == 'cartesian_xyz' else C(self.P.position_coordinates, self.P.dx)
                self.P.pmesh_bcs = self.PM.ParticleMeshBoundaryConditions_C(self.names, self.pm, self.upbf)
            else:
                self.upbf = mod.UserParticleBoundaryFunctions(self.P.position_coordinates)
                self.P.pmesh_bcs = self.P.particle_solib.ParticleMeshBoundaryConditions(self.names, self.pm, self.upbf, print_flag=False)
        elif self.engine == 'py':
            self.P.pmesh_bcs = self.PM.ParticleMeshBoundaryConditions_C(self.names, self.pm, self.py_functions())
        else:
            mod = importlib.import_module('vmon_%s_solib' % self.coord)
            self.vmon = mod
            code = {'absorb': 0, 'reflect': 1, 'pass': 2}
            self.slots = sorted(self.fns)
            table = {n: (i, code[self.fns[n]]) for i, n in enumerate(self.slots)}
            self.upbf = mod.make(self.pos, table)
            mod.take_log()
            self.P.pmesh_bcs = self.P.particle_solib.ParticleMeshBoundaryConditions(self.names, self.pm, self.upbf, print_flag=False)

    def py_functions(self):
        W = self
        style = self.case.get('reflect_style', 'own')
        g = self.geo.g

        class Base:
            pass

        class PBF(Base):
            pass
        place = np.random.default_rng(self.case['seed'] + 77)
        mixed = place.random() < 0.4
        own = {}
        for name, beh in self.fns.items():
            def fn(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None, name=name, beh=beh):
                before = [float(p[c]) for c in W.pos + W.x0n + W.un]
                n = np.array(facet_normal, dtype=float).ravel()
                if beh == 'absorb':
                    p['bitflags'] = p['bitflags'] | W.PC.DELETE_FLAG
                elif beh == 'reflect':
                    u = np.array([p[c] for c in W.un[:g]])
                    u = u - 2 * np.dot(n, u) * n
                    if style == 'P.dx':
                        # as the example boundary functions do: from the mover's displacement
                        d = (1.0 - dx_fraction) * np.array(W.P.dx[:g], dtype=float)
                        x = np.array([p[c] for c in W.pos[:g]]) - 2 * np.dot(n, d) * n
                    else:
                        d = np.array([p[c] for c in W.pos[:g]]) - np.array([p[c] for c in W.x0n[:g]])
                        x = np.array([p[c] for c in W.pos[:g]]) - 2 * np.dot(n, d) * n
                    for i in range(g):
                        p[W.pos[i]] = x[i]
                        p[W.un[i]] = u[i]
                W.log.append(dict(fn=name, species=str(species_name), facet=int(facet_index), frac=float(dx_fraction), normal=n,
                                  before=np.array(before), uid=int(p['unique_ID']), cell=int(p['cell_index'])))
            # the user's functions may be in the class, in one it derives from, or belong to the object
            where = int(place.integers(0, 4)) if mixed else 2
            if where == 0:
                setattr(Base, name, fn)
            elif where == 1:
                own[name] = fn
            else:
                setattr(PBF, name, fn)
        obj = PBF()
        for name, fn in own.items():
            setattr(obj, name, types.MethodType(fn, obj))
        return obj

    def take_log(self):
        if self.engine == 'py' or self.case.get('bc') == 'shipped':
            l, self.log = self.log, []
            return l
        out = []
        for (slot, sn, facet, dx, frac, n, before, after, uid, cell) in self.vmon.take_log():
            out.append(dict(fn=self.slots[slot], species=str(sn), facet=int(facet), frac=float(frac), normal=np.array(n), before=np.array(before),
                            uid=int(uid), cell=int(cell), dx=np.array(dx)))
        return out

    # ---------------------------------------------------------------- fields
    def fields(self, rng):
        self.negE = None
        self.ext = None
        if not any(k == 'charged' for k in self.case['species']):
            return
        et, deg = self.case.get('element', ['DG', 0])
        F = self.DM.Field_C(self.pm, element_type=et, element_degree=deg, field_type='vector')
        # so that one kick moves a particle by about a cell
        amp = 0.3 * self.geo.hmin / self.ctrl.dt ** 2 * self.case.get('efield', 1.0)
        F.function_values[:] = rng.normal(0, 1, len(F.function_values)) * amp
        self.negE = F
        if self.case.get('no_field'):
            self.negE = None
        off = self.case.get('switch')
        if off is not None:
            self.ctrl.apply_solved_electric_field = {n: bool(rng.random() < 0.5) for n in self.names}
        if self.case.get('external') and self.engine == 'py':
            X = self.DM.Field_C(self.pm, element_type='DG', element_degree=0, field_type='vector')
            v = rng.normal(0, 1, len(X.function_values)) * amp
            X.function_values[:] = v
            for c in range(self.geo.nc):
                if rng.random() < 0.4:
                    X.function_values[X.function_space.dofmap().cell_dofs(c)] = 0.0
            self.ext = X
            if off is not None:
                self.ctrl.apply_random_external_electric_field = {n: bool(rng.random() < 0.5) for n in self.names}

    def field_at(self, F, x, c):
        """value of a finite-element field in cell c at x, evaluated by dolfin in that cell"""
        v = np.zeros(self.geo.g)
        try:
            F.function.eval_cell(v, np.array(x[:self.geo.g], dtype=float), df.Cell(self.pm.mesh, int(c)))
        except (AttributeError, TypeError):
            F.function.eval(v, np.array(x[:self.geo.g], dtype=float))
        return v

    # ---------------------------------------------------------------- particles
    def new_particles(self, sn, n, rng=None, traj=0.0, flags=True):
        """list entries for n particles in random cells"""
        rng = rng or self.rng
        g, out = self.geo, []
        dt = self.ctrl.dt
        few = rng.random() < 0.4                             # weights from a small set
        for _ in range(n):
            if out and rng.random() < 0.06:                  # differs from another particle in a part of its data only
                q = list(out[int(rng.integers(0, len(out)))])
                self.uid += 1
                q[-2] = self.uid
                if rng.random() < 0.5:
                    q[3 * self.pdim] = float(rng.choice([0.5, 1.0, 2.0]))
                if rng.random() < 0.5:
                    k = 2 * self.pdim + int(rng.integers(0, self.pdim))
                    q[k] = [-q[k], 0.0, 0.5 * q[k]][int(rng.integers(0, 3))]
                out.append(tuple(q))
                continue
            c = int(rng.integers(0, g.nc))
            x = g.random_point(rng, c)
            full = np.zeros(self.pdim)
            full[:g.g] = x
            if self.pdim > g.g:
                full[g.g:] = rng.uniform(-1, 1, self.pdim - g.g) * g.L
            size = [0.0, 0.05 * g.hmin, g.hmin, g.L * 0.3, g.L, 2.5 * g.L][int(rng.choice(6, p=self.case.get('speeds', [.05, .2, .3, .25, .15, .05])))]
            d = rng.normal(0, 1, self.pdim)
            if rng.random() < 0.1:
                d[int(rng.integers(0, self.pdim))] *= 1e-3
            d = d / (np.linalg.norm(d) + 1e-300) * size * rng.uniform(0.5, 1.0)
            u = d / dt
            self.uid += 1
            fl = 0
            if traj and rng.random() < traj:
                fl |= self.PC.TRAJECTORY_FLAG
            if flags and rng.random() < 0.3:
                fl |= 1 << int(rng.integers(2, 9))      # user bits
            if self.is_far and flags and self.far.random() < 0.3:
                fl |= 1 << int(self.far.integers(9, 31))
            out.append(tuple(full.tolist()) + tuple((full + 0.125).tolist()) + tuple(u.tolist()) +
                       (float(rng.choice([0.5, 1.0, 2.0]) if few else rng.uniform(0.1, 5)), int(fl), c, self.uid, 0))
            if self.is_far and not few:
                w = 3 * self.pdim
                out[-1] = out[-1][:w] + (float(self.far.choice([0.0, 10.0 ** self.far.uniform(-9, 12)], p=[.05, .95])),) + out[-1][w + 1:]
        return out

    def add(self, sn, plist):
        class U:
            pass
        setattr(U, sn, staticmethod(lambda type: (len(plist), plist)))
        self.P.user_particles_class = U
        self.P.create_from_list(sn)

    def locate(self):
        self.P.compute_mesh_cell_indices()

    def snapshot(self, sn):
        sap = self.P.sap_dict[sn]
        parts = []
        r = sap.init_out_loop()
        while isinstance(r[1], np.ndarray):
            parts.append(np.array(r[1][:r[0]], copy=True))
            r = sap.get_next_segment('out')
        return np.concatenate(parts) if parts else np.zeros(0, dtype=self.P.particle_dtype)

    def counts(self, sn):
        return int(self.P.get_species_particle_count(sn)), int(self.P.sap_dict[sn].get_number_of_items())

    def X(self, a):
        return np.stack([np.asarray(a[c], float) for c in self.pos], axis=-1) if len(a) else np.zeros((0, self.pdim))

    def U(self, a):
        return np.stack([np.asarray(a[c], float) for c in self.un], axis=-1) if len(a) else np.zeros((0, self.pdim))

    # ---------------------------------------------------------------- trajectories
    def enable_trajectories(self, n_timesteps, max_points=None, extra=40, names=None):
        """names: trajectory attributes; fields are added for charged species"""
        import RecordedData_Module as RD
        self.ctrl.n_timesteps = n_timesteps
        self.ctrl.title, self.ctrl.author = 'monitored', 'harness'
        self.ctrl.write_trajectory_files = False
        tin = RD.TrajectoryInput_C()
        tin.max_points = max_points
        tin.extra_points = extra
        base = names or (['step', 't'] + self.pos + self.un + ['unique_ID', 'crossings'])
        fmt = {'step': np.int64, 'unique_ID': np.int64, 'crossings': np.int64, 'cell_index': np.int64, 'bitflags': np.int64}
        ext = []
        if any(k == 'charged' for k in self.case['species']):
            ext = ['E' + c for c in self.P.force_components] + ['E' + c + '_ext' for c in self.P.force_components]
        tin.charged_dict = {'names': base + ext, 'formats': [fmt.get(n, np.float64) for n in base + ext]}
        tin.neutral_dict = {'names': list(base), 'formats': [fmt.get(n, np.float64) for n in base]}
        P = self.P
        idx = {n: i for i, n in enumerate(P.species_names)}
        self.P.traj_T = RD.Trajectory_C(tin, self.ctrl, P.charged_species, P.neutral_species, idx, P.mass, P.charge)
        return self.P.traj_T

    def trajectories(self):
        """{(species, uid): structured array of the points recorded so far}"""
        T, out = self.P.traj_T, {}
        for sn in self.names:
            for i in range(len(T.data_list[sn])):
                n = int(T.trajectory_length[sn][i])
                out.setdefault((sn, int(T.particle_unique_id_list[sn][i])), []).append((np.array(T.data_list[sn][i][:n], copy=True), int(T.particle_index_list[sn][i]), n))
        return out

    def record(self):
        if any(k == 'charged' for k in self.case['species']):
            self.P.record_trajectory_data(self.ctrl.timeloop_count, self.ctrl.time, neg_E_field=self.negE, external_E_field=self.ext)
        else:
            self.P.record_trajectory_data(self.ctrl.timeloop_count, self.ctrl.time)

    # ---------------------------------------------------------------- advance
    def advance(self, accel_only=False):
        self.ctrl.timeloop_count += 1
        self.ctrl.time += self.ctrl.dt
        if any(k == 'charged' for k in self.case['species']):
            # the library has two Python movers for charged particles; with the same contract
            move = self.P.move_particles_in_electrostatic_field if self.case.get('older') else self.P.advance_charged_particles_in_E_field
            move(self.ctrl, neg_E_field=self.negE, external_E_field=self.ext, accel_only=accel_only)
        if any(k == 'neutral' for k in self.case['species']) and not accel_only:
            self.P.advance_neutral_particles(self.ctrl)

    def kick(self, sn, x, c):
        """(charge/mass) dt E for a particle of sn at x in cell c, without the random external part"""
        if self.kind[sn] != 'charged' or self.negE is None:
            return np.zeros(self.pdim)
        a = self.ctrl.apply_solved_electric_field
        if a is not None and not a[sn]:
            return np.zeros(self.pdim)
        k = np.zeros(self.pdim)
        k[:self.geo.g] = -self.q[sn] / self.m[sn] * self.ctrl.dt * self.field_at(self.negE, x, c)
        return k

    def react(self, sn):
        def r(f):
            t = self.tag[f]
            if t == 0:
                return 'none'
            return self.fns[self.expect[self.inv[t], sn]]
        return r

    def predict(self, sn, rec, u=None):
        """reference for one particle record over one step; u overrides the kicked velocity"""
        x = np.array([rec[c] for c in self.pos], float)
        c = int(rec['cell_index'])
        u0 = np.array([rec[k] for k in self.un], float)
        un = u0 + self.kick(sn, x, c) if u is None else u
        tr = self.geo.trace(x, un * self.ctrl.dt, self.react(sn))
        if self.geo.bary(c, x).min() < 1e-9:
            tr['delicate'] = True
        tr['u'] = tr['R'] @ un
        tr['u_kicked'] = un
        tr['x_start'] = x
        return tr
