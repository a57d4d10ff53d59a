"""Complete runs: the time loop of the example programs (advance, record, add, write, deposit, solve), judged at
every step against the particles it holds, and compared with the same run under another storage layout, another
engine and with every diagnostic switched on."""
import numpy as np
import dolfin as df
from sources import SourceWorld
from props.c12 import System
import fe


class Run:
    def __init__(self, case, engine, L, extras, R=None):
        self.case, self.R, self.extras = case, R, extras
        W = self.W = SourceWorld(dict(case, engine=engine, L=L, no_field=True), engine)
        g, pm, P, ctrl = W.geo, W.pm, W.P, W.ctrl
        rng = np.random.default_rng(case['seed'] + 77)
        sph = W.coord == 'spherical_r'
        import UserUnits_Module as U_M
        self.eps = float(U_M.MyPlasmaUnits_C.epsilon_0)
        DM = W.DM
        self.phi = DM.Field_C(pm, element_type='CG', element_degree=1, field_type='scalar')
        self.negE = DM.Field_C(pm, element_type='DG', element_degree=0, field_type='vector')
        marker = df.MeshFunction('size_t', pm.mesh, g.g - 1)
        marker.set_all(0)
        ext = np.nonzero(g.exterior)[0]
        key = g.P[ext].mean(axis=1)[:, 0]
        order = ext[np.argsort(key)]
        nb = 1 if g.g == 1 else max(1, len(order) // 4)
        f1, f2 = list(order[:nb]), list(order[-nb:])
        v1 = set(np.unique(g.fv[f1]))
        f2 = [f for f in f2 if not v1 & set(g.fv[f].tolist())]
        for f in f1:
            marker[int(f)] = 3
        for f in f2:
            marker[int(f)] = 5
        self.q = max(abs(v) for v in W.q.values())
        m = min(W.m[s] for s in W.names)
        amp = 0.3 * g.hmin / ctrl.dt ** 2 * m / self.q            # a field that matters in one step
        p1, p2 = float(rng.normal() * amp * g.L), float(rng.normal() * amp * g.L)
        names = ('rmin', 'rmax') if sph or g.g == 2 else ('xmin', 'xmax')
        if sph:
            from UserMesh_y_Fields_Spherical1D_Module import UserPoissonSolve1DS_C as PS
        elif g.g == 1:
            from UserMesh_y_Fields_FE_XYZ_Module import UserPoissonSolve1D_C as PS
        else:
            from UserMesh_y_Fields_FE2D_Module import UserPoissonSolve2DCirc_C as PS
        self.S = PS(self.phi, 'lu', None, field_boundary_marker=marker, phi_BCs={names[0]: (3, p1), names[1]: (5, p2)}, neg_electric_field=self.negE)
        df.set_log_level(50)
        X = self.phi.function_space.tabulate_dof_coordinates().reshape(-1, g.g)
        self.fixed = np.full(len(X), np.nan)
        for fs, v in ((f1, p1), (f2, p2)):
            for x in g.X[np.unique(g.fv[fs])] if len(fs) else []:
                self.fixed[np.abs(X - x).max(axis=1) < 1e-9 * g.L] = v
        W.negE = self.negE
        # densities whose charge matters about as much as the boundaries
        n0 = self.eps * amp / g.L / self.q
        for s in W.src.values():
            s['par']['number_density'] = float(n0 * rng.uniform(0.1, 1))
        self.wscale = n0 * g.vol.mean()
        self.dens = {s: DM.Field_C(pm, 'CG', 1, 'scalar') for s in W.names}
        self.cell = {s: DM.Field_C(pm, 'DG', 0, 'scalar') for s in W.names}
        self.Q = DM.Field_C(pm, 'CG', 1, 'scalar')
        self.factor = case.get('factor')
        self.sys = System(self.phi.function_space, g, 1, sph) if R else None
        self.space = fe.Space(self.Q.function_space, g, 1)
        for s in W.names:
            lst = W.new_particles(s, case['n0'], rng, traj=0.3)
            i = 3 * W.pdim
            W.add(s, [l[:i] + (l[i] * self.wscale,) + ((l[i + 1] & ~P.TRAJECTORY_FLAG) if not extras else l[i + 1],) + l[i + 2:] for l in lst])
        W.locate()
        if extras:
            import RecordedData_Module as RD
            ctrl.n_timesteps = case['steps'] + 2
            hi = RD.ParticleHistoryInput_C()
            hi.max_points = None
            hi.scalar_histories = ['count', 'KE']
            P.histories = RD.ParticleHistory_C(hi, ctrl, P.history_function_dict, P.species_names)
            W.enable_trajectories(case['steps'] + 2, extra=60)
            for s in W.names:
                sap = P.sap_dict[s]
                for i in range(sap.get_number_of_items()):
                    seg, off = sap.get_segment_and_offset(i)
                    if int(seg[off]['bitflags']) & P.TRAJECTORY_FLAG:
                        P.traj_T.create_trajectory(s, i, 'charged' if W.kind[s] == 'charged' else 'neutral', unique_id_int=int(seg[off]['unique_ID']))
            ctrl.particle_output_attributes = W.pos + W.un + ['weight', 'unique_ID']
            ctrl.particle_output_file = 'out%d.h5' % id(self)
            ctrl.particle_output_interval = 1
            P.initialize_particle_output_file(ctrl)
        self.field()

    def field(self):
        """deposit and solve, as the example programs do"""
        W, P, R = self.W, self.W.P, self.R
        self.Q.set_values(0.0)
        for s in W.names:
            self.dens[s].set_values(0.0)
            self.cell[s].set_values(0.0)
        for s in W.names:
            P.accumulate_number_density(s, self.dens[s], self.cell[s])
            self.Q.multiply_add(self.dens[s], multiplier=P.charge[s])
        kw = {} if self.factor is None else dict(assembled_charge_factor=self.factor)
        self.S.solve_for_phi(assembled_charge=self.Q, **kw)
        if R is None:
            return
        n = len(self.fixed)
        b, tot, ab = np.zeros(n), 0.0, 0.0
        for s in W.names:
            a = W.snapshot(s)
            X = W.X(a)
            for i in range(len(a)):
                c = int(a['cell_index'][i])
                v = W.q[s] * float(a['weight'][i])
                b[self.space.dofs(c)] += v * self.space.basis(c, X[i])
                ab += abs(v)
                tot += v
        Q = self.Q.function_values.get_local()
        R.count('solves')
        R.check(np.all(np.abs(Q - b) <= 1e-9 * ab + 1e-300), 'charge', lambda: 'the assembled charge differs from that of the particles by %r of %r' % (np.abs(Q - b).max(), ab))
        b = b * (1.0 if self.factor is None else self.factor)
        U = self.phi.function_values.get_local()
        free = np.isnan(self.fixed)
        size = np.abs(U).max() + 1e-300
        R.check(np.all(np.abs(U[~free] - self.fixed[~free]) <= 1e-9 * max(size, np.nanmax(np.abs(self.fixed)))), 'dirichlet', 'the potential is not the prescribed one on the boundary')
        A = self.eps * self.sys.A
        res = A @ U - b
        scale = np.abs(A) @ np.abs(U) + np.abs(b)
        tol = 1e-8 * np.maximum(scale, 1e-6 * scale.max()) + 1e-12 * np.abs(A).max() * size
        R.check(not np.any(free & (np.abs(res) > tol)), 'potential', lambda: 'the potential is not the one of the particles\' charges: the equations are off by %r of %r' % (
            np.abs(res[free]).max(), scale.max()))
        R.count('charge_matters', float(np.abs(b[free]).max(initial=0)) > 1e-2 * scale.max())
        E = self.negE.function_values.get_local()
        g = W.geo
        for c in range(g.nc):
            d = self.sys.S.dofs(c)
            G = np.einsum('bg,b->g', self.sys.grad(c, g.mid[c][None])[0], U[d])
            got = fe.vector_value(self.negE.function_space, g, 0, E, c, g.mid[c])
            R.check(np.all(np.abs(got - G) <= 1e-7 * (np.abs(U[d]).max() / g.h[c] + 1e-300)), 'field', lambda: 'the field in cell %d is %r, the gradient of the potential %r' % (c, got, G))

    def runaway(self):
        """the next step would take a particle through tens of cells: beyond what one step may do"""
        W = self.W
        E = np.abs(self.negE.function_values.get_local()).max()
        top = 0.0
        for s in W.names:
            a = W.snapshot(s)
            u = max((np.abs(a[n]).max(initial=0) for n in W.un), default=0)
            top = max(top, u + W.ctrl.dt * E * abs(W.q[s]) / W.m[s])
        return top * W.ctrl.dt > 10 * W.geo.hmin

    def step(self):
        W, P, ctrl, R = self.W, self.W.P, self.W.ctrl, self.R
        pre = {s: W.snapshot(s) for s in W.names}
        pred = {s: [W.predict(s, p) for p in pre[s]] for s in W.names} if R else None
        W.advance()
        W.take_log()
        delicate = False
        if R:
            for s in W.names:
                now = {int(p['unique_ID']): p for p in W.snapshot(s)}
                for p, t in zip(pre[s], pred[s]):
                    if t['delicate'] or t['fate'] in ('escaped', 'unfinished'):
                        delicate = True
                        continue
                    q = now.get(int(p['unique_ID']))
                    R.count('moves')
                    if t['fate'] == 'deleted':
                        R.check(q is None, 'not-absorbed', 'an absorbed particle is still there')
                        continue
                    if not R.check(q is not None, 'vanished', lambda: 'particle %d of %s vanished' % (p['unique_ID'], s)):
                        continue
                    x = np.array([q[k] for k in W.pos], float)
                    u = np.array([q[k] for k in W.un], float)
                    un = np.abs(t['u_kicked']).max()
                    R.check(np.all(np.abs(u - t['u']) <= 1e-9 * (un + np.abs(t['u_kicked'] - [float(p[k]) for k in W.un]).max()) + 1e-300), 'velocity', lambda: 'velocity %r, expected %r in the current field' % (u, t['u']))
                    R.check(np.all(np.abs(x - t['end']) <= 1e-9 * (W.geo.L + np.abs(t['x_start']).max() + un * ctrl.dt)), 'position', lambda: 'position %r, expected %r' % (x, t['end']))
        if self.extras:
            W.record()
        mid = {s: len(W.snapshot(s)) for s in W.names}
        due = W.due()
        W.fire()
        if R:
            for s in W.names:
                want = mid[s] + sum(W.src[n]['par']['number_per_cell'] * len(W.src[n]['cells']) for n in due if W.src[n]['par']['species_name'] == s)
                got = len(W.snapshot(s))
                R.count('added', got - mid[s])
                R.check(got == want, 'sources', lambda: '%d particles of %s, expected %d' % (got, s, want))
        if self.extras:
            P.write_particles_to_file(ctrl)
        self.field()
        if self.extras:
            P.record_history_data(ctrl.timeloop_count, ctrl.time)
        return delicate

    def state(self):
        W = self.W
        return dict(parts={s: W.snapshot(s) for s in W.names}, Q=self.Q.function_values.get_local(), phi=self.phi.function_values.get_local(), E=self.negE.function_values.get_local(),
                    cell={s: self.cell[s].function_values.get_local() for s in W.names})


def compare(R, A, B, what, step, P, W, same):
    tp, tf = (1e-12, 1e-12) if same else (1e-7, 1e-6)
    for s in W.names:
        a, b = A['parts'][s], B['parts'][s]
        if not R.check(len(a) == len(b) and np.array_equal(a['unique_ID'], b['unique_ID']), 'differs:particles:' + what,
                       lambda: 'step %d: %s has particles %r... (%d) in one run and %r... (%d) in the other' % (step, s, a['unique_ID'][:8], len(a), b['unique_ID'][:8], len(b))):
            return False
        R.count('compared', len(a))
        fl = ~np.int64(P.TRAJECTORY_FLAG)
        R.check(np.array_equal(a['cell_index'], b['cell_index']) and np.array_equal(a['bitflags'] & fl, b['bitflags'] & fl) and np.array_equal(a['weight'], b['weight']) and
                np.array_equal(a['crossings'], b['crossings']), 'differs:attributes:' + what, lambda: 'step %d: cells, flags, weights or crossings of %s differ' % (step, s))
        for names, kind in ((W.pos, 'positions'), (W.un, 'velocities')):
            for n in names:
                x, y = a[n].astype(float), b[n].astype(float)
                sc = (np.abs(x).max(initial=0) + (W.geo.L if kind == 'positions' else W.geo.hmin / W.ctrl.dt))
                R.check(np.all(np.abs(x - y) <= tp * sc), 'differs:' + kind + ':' + what, lambda: 'step %d: %s of %s differ by %r' % (step, kind, s, np.abs(x - y).max()))
        x, y = A['cell'][s], B['cell'][s]
        R.check(np.all(np.abs(x - y) <= tp * (np.abs(x).max() + 1e-300)), 'differs:cell-density:' + what, lambda: 'step %d: cell densities of %s differ' % (step, s))
    for k in ('Q', 'phi', 'E'):
        x, y = A[k], B[k]
        R.check(np.all(np.abs(x - y) <= tf * (np.abs(x).max() + 1e-300)), 'differs:%s:%s' % (k, what), lambda: 'step %d: %s differs by %r of %r' % (step, k, np.abs(x - y).max(), np.abs(x).max()))
    return True


def run(case, R):
    e1, e2 = case['engines']
    A = Run(case, e1, case['Ls'][0], case['extras'][0], R)
    states = [A.state()]
    delicate = None
    steps = 0
    for i in range(case['steps']):
        if A.runaway():
            R.count('runaways')
            break
        steps += 1
        if A.step() and delicate is None:
            delicate = i
        states.append(A.state())
        R.count('steps')
    B = Run(case, e2, case['Ls'][1], case['extras'][1])
    what = '-'.join(k for k, d in (('engine', e1 != e2), ('layout', case['Ls'][0] != case['Ls'][1]), ('diagnostics', case['extras'][0] != case['extras'][1])) if d) or 'again'
    R.count('pairs_' + what)
    # charges and field feed back on each other: a rounding difference between the engines grows by orders of
    # magnitude per step, so they are compared over the first steps; equal arithmetic is compared over the whole run
    same = e1 == e2
    compare(R, states[0], B.state(), what, 0, A.W.PC, A.W, same)
    for i in range(steps):
        if not same and (i >= 2 or delicate is not None and i >= delicate):
            R.count('cut_short')
            break
        B.step()
        if not compare(R, states[i + 1], B.state(), what, i + 1, A.W.PC, A.W, same):
            break
    for run, n in ((A, steps), (B, None)):
        if run.extras and n is not None:
            h = run.W.P.histories
            R.check(int(h.counter) == n, 'history-length', lambda: '%d history points after %d steps' % (h.counter, n))
            for i in range(n):
                for s in run.W.names:
                    R.check(int(h.data_array['%s_count' % s][i]) == len(states[i + 1]['parts'][s]), 'history', lambda: 'history says %r particles of %s at step %d' % (h.data_array['%s_count' % s][i], s, i + 1))
            R.count('histories')
    R.sig(case['coord'], e1, e2, what, tuple(case['Ls']), len(case['species']), case['region'], case['bc'], case.get('factor'))
