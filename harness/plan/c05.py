from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 2000 if tier == 'quick' else 40000
    out = M.cases(n, rng, steps=(1, 2, 4, 8, 20), engines=('cpp',))
    # the boundary functions that come with the library in both languages
    out += [dict(c, kind=c['kind'] + '-shipped', known=['test_electrons', 'e_', 'He']) for c in M.cases(n // 5, rng, steps=(1, 3), engines=('cpp',), lowdim=0, bc='shipped')
            if c['coord'] in ('cartesian_xy', 'spherical_r')]
    for c in out:
        c['blind'] = rng.random() < 0.25
        c['traj'] = rng.random() < 0.4
        c['accel_only'] = rng.random() < 0.2
        if c['blind'] or c['steps'] == 20:
            c['small'] = True
        if c['traj']:
            c['extra'] = rng.choice([0, 3, 60])
    big = M.large(8 if tier == 'quick' else 36, rng, engines=('cpp',))
    for c in big:
        c.update(blind=False, traj=True, extra=20, accel_only=False)
    return big + out


PLAN = Plan('C05', modules=M.MODULES + M.VMON + M.SHIPPED, cases=cases,
            required={'particles_compared': 20000, 'boundary_calls': 3000, 'trajectory_points': 3000, 'accel_only_steps': 100, 'blind_runs': 100, 'exactly_full': 200},
            rule='each random world is built twice and run in lock step by the Python and the C++ engine; particles, counts, boundary calls and trajectories are compared; '
                 'distinct by (coordinates, mesh dimension, species, segment length, boundary mode, trajectories, snapshots between steps or not, accel_only, steps)',
            assumptions=['positions, velocities and fields are compared to 1e-8 of their largest scale in the run',
                         'a particle whose path passes within 1e-9 of a facet edge or end is left out from then on (the two engines may round differently)',
                         'fields are constant in each cell (the C++ interpolator is documented for those)'])
