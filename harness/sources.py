"""Worlds with particle sources (create_maxwellian_particles called through add_more_particles)."""
import numpy as np
from world import World


class SourceWorld(World):
    def __init__(self, case, engine=None):
        super().__init__(case, engine)
        rng = np.random.default_rng(case['seed'] + 31)
        self.src = {}
        if not self.pm.cell_volume_dict:
            self.pm.compute_cell_volume_dict()
        self.PC.UNIQUE_ID_COUNTER = 1000
        self.uid = 1000000          # identity numbers of listed particles
        d = {}
        ns = case.get('nsources', 1)
        for i in range(ns):
            sn = self.names[i % len(self.names)]
            region, expect = self.region(rng, case.get('region', 'whole'))
            par = dict(species_name=sn, number_density=float(10.0 ** rng.uniform(-3, 12)), thermal_speed=float(rng.uniform(0.1, 3) * self.geo.hmin / self.ctrl.dt),
                       drift_velocity=(rng.normal(0, 1, self.pdim) * self.geo.hmin / self.ctrl.dt).tolist(), velocity_coordinate_system='x_y_z',
                       timestep_interval=int(rng.integers(1, 4)), number_per_cell=int(rng.choice(case.get('per_cell', [1, 2, 3, 7]))))
            if rng.random() < 0.2:
                par['thermal_speed'] = 0.0
            par['drift_velocity'] = tuple(par['drift_velocity'])
            name = 'src%d' % i
            d[name] = (par, self.P.create_maxwellian_particles, region)
            self.src[name] = dict(par=par, region=region, cells=expect)
        self.P.particle_source_dict = d

    def region(self, rng, kind):
        """a region object and the set of cell indices it should have, from the midpoints"""
        DM, g = self.DM, self.geo
        if kind == 'whole':
            return DM.WholeMesh_C(self.pm), list(range(g.nc))
        lo, hi = g.X.min(axis=0), g.X.max(axis=0)
        while True:
            a, b = np.sort(rng.uniform(lo, hi, (2, g.g)), axis=0)
            c = g.mid[int(rng.integers(0, g.nc))]
            if rng.random() < 0.5:
                a, b = np.minimum(a, c - 1e-3 * g.hmin), np.maximum(b, c + 1e-3 * g.hmin)
            tol = 1e-6 * g.hmin + 1e-9
            if np.min(np.abs(g.mid - a)) < tol or np.min(np.abs(g.mid - b)) < tol:
                continue
            cells = [int(i) for i in np.nonzero(((g.mid >= a) & (g.mid <= b)).all(axis=1))[0]]
            if cells:
                break
        if g.g == 1:
            return DM.RectangularRegion_C(self.pm, float(a[0]), float(b[0])), cells
        return DM.RectangularRegion_C(self.pm, tuple(a.tolist()), tuple(b.tolist())), cells

    def due(self):
        return [n for n, s in self.src.items() if self.ctrl.timeloop_count % s['par']['timestep_interval'] == 0]

    def fire(self):
        np.random.seed((self.case['seed'] + self.ctrl.timeloop_count) % (1 << 31))
        self.P.add_more_particles(self.ctrl, neg_E_field=self.negE, external_E_field=self.ext)
