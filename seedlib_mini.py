"""Small set-up shared by the demonstrations: particles on a mesh through the public interface."""
import sys, os, types
import numpy as np
import dt_pybind11_bridge
import dolfin as df
import Particle_Module as PM
import Dolfin_Module as DM
import DT_Module as DT
import numpy_types_solib

INFO = {'cartesian_x': ['x'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z'], 'spherical_r': ['r']}
P = PM.Particle_C


def particles(coord, species, L=4, cpp=False, force=True):
    """species: list of (name, charge, mass, 'charged'|'neutral')"""
    P.SEGMENT_LENGTH = L
    pin = PM.ParticleInput_C()
    pin.precision = np.float64
    pin.particle_integration_loop = 'loop-on-particles'
    pin.coordinate_system = coord
    pin.force_components = INFO[coord] if any(s[3] == 'charged' for s in species) else None
    pin.force_precision = np.float64
    pin.use_cpp_integrators = cpp
    pin.particle_species = tuple(PM.ParticleSpecies_C(*s) for s in species)
    return P(pin)


def control(dt=1.0, n=100):
    c = DT.DTcontrol_C()
    c.dt, c.timeloop_count, c.time, c.n_timesteps = dt, 0, 0.0, n
    c.MAX_FACET_CROSS_COUNT = 10000
    c.apply_solved_electric_field = None
    c.apply_random_external_electric_field = None
    c.title, c.author, c.write_trajectory_files = 't', 'a', False
    return c


def mesh(m, tag='wall', spherical=False, mark=None, names=None):
    """Mesh_C with every exterior facet marked 1 (= tag), or as mark(midpoint) says"""
    pm = DM.Mesh_C(Mesh=m, coordinate_system='1D-spherical-radial' if spherical else 'Cartesian', compute_tree=True)
    d = m.topology().dim()
    m.init(d - 1, d)
    mk = df.MeshFunction('size_t', m, d - 1)
    mk.set_all(0)
    for f in df.facets(m):
        if mark is not None:
            mk[f.index()] = int(mark(f.midpoint(), f.exterior()))
        elif f.exterior():
            mk[f.index()] = 1
    pm.particle_boundary_marker = mk
    pm.particle_boundary_dict = names or {tag: 1}
    return pm


class Absorb:
    def default_bc(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
        p['bitflags'] = p['bitflags'] | P.DELETE_FLAG


def setup(part, pm, functions=None):
    part.initialize_particle_mesh(pm)
    pm.compute_cell_dict()
    part.initialize_particle_integration()
    if functions is not None:
        part.pmesh_bcs = PM.ParticleMeshBoundaryConditions_C(part.species_names, pm, functions)


def add(part, sn, rows):
    U = types.SimpleNamespace(**{sn: lambda type: (len(rows), rows)})
    part.user_particles_class = U
    part.create_from_list(sn)


def row(x, u, uid, w=1.0, flags=0, cell=DM.Mesh_C.NO_CELL):
    return tuple(x) + tuple(x) + tuple(u) + (w, flags, cell, uid, 0)


def snapshot(part, sn):
    sap, out = part.sap_dict[sn], []
    r = sap.init_out_loop()
    while isinstance(r[1], np.ndarray):
        out.append(np.array(r[1][:r[0]], copy=True))
        r = sap.get_next_segment('out')
    return np.concatenate(out) if out else []


def step(part, ctrl, negE=None, ext=None):
    ctrl.timeloop_count += 1
    ctrl.time += ctrl.dt
    if part.charged_species:
        part.advance_charged_particles_in_E_field(ctrl, neg_E_field=negE, external_E_field=ext)
    if part.neutral_species:
        part.advance_neutral_particles(ctrl)


def fail(msg):
    print('BROKEN:', msg)
    sys.stdout.flush()
    os._exit(1)


def done():
    print('demonstration: the property holds')
    sys.stdout.flush()
    os._exit(0)
