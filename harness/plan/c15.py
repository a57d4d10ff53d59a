from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 300 if tier == 'quick' else 8000
    out = M.cases(n, rng, steps=(3, 5, 8), lowdim=0.2)
    for c in out:
        c['nsources'] = rng.choice([1, 1, 2, 3])
        c['region'] = rng.choice(['whole', 'box'])
        c['per_cell'] = rng.choice([[1], [2], [3], [7], [1, 2, 3, 7], [20]])
        c['p_move'] = rng.choice([0, 0.5, 1])
        c['bc'] = rng.choice(['absorb', 'mixed', 'reflect'])
        c['switch'] = None
        c['p_retune'] = rng.choice([0, 0, 0.3])
    # many particles per cell of a few long thin cells: are they spread over all of it?
    for c in out[:24 if tier == 'quick' else 600]:
        c['small'], c['mesh'] = True, rng.choice(['needle', 'needle', None])
        c['per_cell'], c['steps'], c['nsources'], c['p_retune'], c['p_move'] = [rng.choice([600, 1500])], 1, 1, 0, 0
        c['fill'] = True
    return out


PLAN = Plan('C15', cpu_limit=300, modules=M.MODULES + M.VMON, cases=cases,
            required={'fired': 500, 'idle': 400, 'particles': 20000, 'listed': 1000, 'initializations': 200, 'velocity_tests': 50, 'place_tests': 40, 'cold_sources': 30, 'deletions': 1000, 'refused': 20, 'retuned': 50, 'corner_tests': 60},
            rule='random worlds (both engines, every coordinate system, 1-3 species) with 1-3 sources over the whole mesh or a box, schedules of 1-3 steps, 1-20 particles per cell, '
                 'densities over 15 decades, cold and warm; listed and function initialisations in random order; advances with deletions and changes of a source\'s parameters between firings; '
                 'distinct by (engine, coordinates, dimension, region, sources fired, particles per cell, segment length, empty, full)',
            assumptions=['in spherical coordinates the weights are per steradian', 'spread and drift are judged from at least 200 particles of a source, with bounds of 6 or more standard errors, for fixed seeds'])
