from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 2500 if tier == 'quick' else 30000
    out = M.cases(n, rng, steps=(2, 4, 8, 16))
    for c in out:
        c['n_timesteps'] = c['steps'] if rng.random() < 0.7 else rng.choice([1, 2, 40])
        c['extra'] = rng.choice([0, 1, 3, 40, 40])
        c['max_points'] = rng.choice([None, None, None, 1, 3, 10])
        c['p_record'] = rng.choice([1.0, 1.0, 0.6])
        c['p_traj'] = rng.choice([0.3, 0.6, 1.0])
        c['record0'] = rng.random() < 0.7
        if c['steps'] == 16:
            c['small'] = True
        if 'charged' in c['species'] and c['engine'] == 'py' and rng.random() < 0.15:
            c['external'] = True
    for c in M.cases(n // 6, rng, steps=(2, 4), lowdim=0):
        c.update(kind=c['kind'] + '-source', nsources=rng.choice([1, 2]), per_cell=[1, 2, 3], small=True, uid500=1, uid500_step=rng.choice([0, 1]),
                 n_timesteps=c['steps'], extra=40, p_traj=0.3, element=['DG', 0], L=rng.choice([1, 2, 3, 5, 8, 100]))
        if 'charged' in c['species'] and c['engine'] == 'py' and rng.random() < 0.5:
            c['external'] = True
        out.append(c)
    big = M.large(14 if tier == 'quick' else 36, rng)
    for c in big:
        c.update(n_timesteps=c['steps'], extra=10, p_traj=0.5)
    return big + out


PLAN = Plan('C07', modules=M.MODULES + M.VMON, cases=cases,
            required={'points_compared': 20000, 'points_crossing': 3000, 'points_removal': 1000, 'index_followed': 5000, 'crossing_time_exact': 2000, 'crossing_after_reflection': 300,
                      'dropped_when_full': 300, 'second_recordings': 200, 'fields_compared': 10000, 'source_trajectories': 50},
            rule='random worlds with flagged particles, additions, deletions and small trajectory storage; the whole trajectory storage is compared with an identity-keyed shadow '
                 'history after every step; distinct by world parameters, number of boundary calls, ended and live trajectories and storage size',
            assumptions=['the shadow history takes crossing places from the monitored boundary calls (themselves judged by C06) and crossing times from an independent path tracer',
                         'a recording made twice in one step stores one point, as documented', 'fields at crossings are those at the start of the step, as documented',
                         'flagged particles are created after the trajectory object'])
