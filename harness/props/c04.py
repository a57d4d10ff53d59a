"""Equations of motion: every particle's step is compared with a mesh-free leapfrog reference."""
import numpy as np
import movers


def judge(W, R, step, pre, post, log, pred):
    ext_on = W.ext is not None
    for sn in W.names:
        now = movers.by_uid(post[sn])
        ae = W.ctrl.apply_random_external_electric_field
        use_ext = ext_on and W.kind[sn] == 'charged' and (ae is None or ae[sn])
        for p, t in zip(pre[sn], pred[sn]):
            uid = int(p['unique_ID'])
            q = now.get(uid)
            x, c = t['x_start'], int(p['cell_index'])
            if use_ext:
                if q is None or W.geo.bary(c, x).min() < 1e-9:
                    continue
                # no reflecting boundaries in these cases: the velocity found is the kicked one
                u1 = np.array([q[k] for k in W.un], float)
                extra = (u1 - t['u_kicked'])[:W.geo.g]
                e = W.field_at(W.ext, x, c)
                ne = np.linalg.norm(e)
                scale = abs(W.q[sn] / W.m[sn] * W.ctrl.dt)
                usz = np.abs(u1).max() + np.abs(t['u_kicked']).max()
                if ne == 0:
                    R.count('external_zero')
                    R.check(np.abs(extra).max() <= 1e-9 * usz, 'external-where-zero', lambda: 'the external field is zero in cell %d, but the velocity of %d changed by %r beyond the solved field' % (c, uid, extra.tolist()))
                else:
                    R.count('external_kick')
                    cross = extra - np.dot(extra, e) / ne ** 2 * e
                    R.check(np.abs(cross).max() <= 1e-8 * usz, 'external-direction', lambda: 'the extra kick %r of %d is not along the external field %r' % (extra.tolist(), uid, e.tolist()))
                    R.check(np.linalg.norm(extra) < 8 * scale * ne + 1e-9 * usz, 'external-size', 'the extra kick exceeds 8 standard deviations of the external field')
                    R.check(np.linalg.norm(extra) > 0, 'external-missing', 'the external field was not applied')
                t = W.predict(sn, p, u=u1)
            if t['delicate'] or t['fate'] in ('escaped', 'unfinished'):
                continue
            if t['fate'] == 'deleted':
                R.count('absorbed_checked')
                R.check(q is None, 'not-absorbed', lambda: 'step %d: %s particle %d reached an absorbing boundary (facet %r) and is still there' % (step, sn, uid, [e['facet'] for e in t['events']]))
                continue
            if not R.check(q is not None, 'vanished', lambda: 'step %d: %s particle %d should have survived its move from %r to %r' % (step, sn, uid, x.tolist(), t['end'].tolist())):
                continue
            nref = sum(e['kind'] == 'reflect' for e in t['events'])
            R.count('moves_checked')
            R.count('kicked', bool(np.any(t['u_kicked'] != np.array([p[k] for k in W.un]))))
            R.count('reflected_once', nref == 1)
            R.count('reflected_more', nref > 1)
            R.count('field_switched_off', W.ctrl.apply_solved_electric_field is not None and W.kind[sn] == 'charged' and not W.ctrl.apply_solved_electric_field[sn])
            xq = np.array([q[k] for k in W.pos], float)
            uq = np.array([q[k] for k in W.un], float)
            path = np.linalg.norm(t['u_kicked']) * W.ctrl.dt
            xt = 1e-9 * (W.geo.L + np.abs(x).max() + path)
            ut = 1e-9 * (np.linalg.norm(t['u_kicked']) + np.abs(t['u_kicked'] - np.array([p[k] for k in W.un])).max()) + 1e-300
            R.check(np.all(np.abs(uq - t['u']) <= ut), 'velocity' + (':reflected' if nref else ''), lambda: 'step %d: %s particle %d velocity %r, expected %r (%d reflections, was %r)' % (
                step, sn, uid, uq.tolist(), t['u'].tolist(), nref, [p[k] for k in W.un]))
            R.check(np.all(np.abs(xq - t['end']) <= xt), 'position' + (':reflected' if nref else ''), lambda: 'step %d: %s particle %d position %r, expected %r (%d reflections, from %r)' % (
                step, sn, uid, xq.tolist(), t['end'].tolist(), nref, x.tolist()))


def uniform(case, R):
    from world import World
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 5)
    sn = W.names[0]

    class E0:
        x, y, z = [float(v) for v in rng.normal(0, 1, 3)]
    W.ctrl.E0 = E0
    e = np.array([E0.x, E0.y, E0.z])
    W.add(sn, W.new_particles(sn, case['nu'], rng))
    for step in range(case['steps']):
        a = W.snapshot(sn)
        if case['engine'] == 'py':
            W.P.advance_charged_species_in_uniform_fields(sn, W.ctrl)
        else:
            W.P.particle_solib.advance_charged_species_in_uniform_fields(W.P, sn, W.ctrl)
        b = W.snapshot(sn)
        if not R.check(len(a) == len(b), 'uniform-count', 'uniform-field mover changed the number of particles'):
            return
        u = W.U(a) + W.q[sn] / W.m[sn] * W.ctrl.dt * e
        x = W.X(a) + u * W.ctrl.dt
        R.count('uniform_moves', len(a))
        R.check(np.allclose(W.U(b), u, rtol=1e-10, atol=1e-12 * (1 + np.abs(u).max(initial=0))), 'uniform-velocity', 'uniform-field mover: wrong velocity')
        R.check(np.allclose(W.X(b), x, rtol=1e-10, atol=1e-12 * (1 + np.abs(x).max(initial=0))), 'uniform-position', 'uniform-field mover: wrong position')


def run(case, R):
    if case.get('uniform'):
        return uniform(case, R)
    movers.run(case, R, judge)
