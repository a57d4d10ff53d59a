from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 2000 if tier == 'quick' else 40000
    out = M.cases(n, rng, steps=(1, 2, 4, 8))
    for c in out:
        c['history'] = rng.choice([None, ['count'], ['KE'], ['count', 'KE'], ['KE', 'count']])
        c['n_timesteps'] = rng.choice([c['steps'], c['steps'], 1, 3, 50])
        c['max_points'] = rng.choice([None, None, 1, 2, 10])
        c['small'] = True
    for c in M.cases(4 if tier == 'quick' else 20, rng, steps=(2,), lowdim=0):
        c.update(kind='crowd-' + c['kind'], n=rng.choice([65536, 66000]), L=rng.choice([1000, 40000, 65536]), species=c['species'][:1], exact=False, small=True, mesh=None,
                 speeds=[.05, .3, .6, .05, 0, 0], history=['count', 'KE'], n_timesteps=3, max_points=None)
        out.insert(0, c)
    return out


PLAN = Plan('C14', modules=M.MODULES + M.VMON, cases=cases,
            required={'diagnostics': 10000, 'deletions': 5000, 'history_points': 2000, 'history_checked': 4000, 'history_overflow': 200},
            rule='random worlds (both engines, 1-3 species, segment lengths 1..100) with additions, advances and deletions; every diagnostic is compared after every event with a sum over '
                 'the enumerated particles, and the whole history storage after every recording; distinct by (engine, coordinates, species, segment length, full, empty, deletions, histories)',
            assumptions=['histories are stored in single precision (the documented type)', 'per-particle histories are judged when there is at least one physical particle'])
