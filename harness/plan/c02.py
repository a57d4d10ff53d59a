from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 900 if tier == 'quick' else 12000
    out = M.cases(n, rng, steps=(2, 4, 8, 15))
    for i in range(n // 10):
        e = 'py' if i % 2 else 'cpp'
        L = rng.choice([1, 2, 3, 5])
        out.append(dict(kind='uniform-' + e, uniform=1, engine=e, coord='cartesian_xyz', gdim=3, species=['charged'], L=L, nu=rng.choice([0, 1, L, 2 * L, 2 * L + 1]),
                        steps=4, seed=rng.randrange(1 << 30), no_field=True))
    big = M.large(14 if tier == 'quick' else 40, rng)
    # more particles than 16-bit numbers can tell apart; long runs
    for c in M.cases(8, rng, engines=('cpp',), steps=(2,), lowdim=0) + M.cases(2 if tier == 'quick' else 20, rng, engines=('py',), steps=(2,), lowdim=0):
        c.update(kind='crowd-' + c['kind'], n=rng.choice([65536, 66000, 70000]), L=rng.choice([1000, 40000, 65536]), species=c['species'][:1], exact=False, p_add=0.5, mesh=None,
                 speeds=[.05, .3, .6, .05, 0, 0])
        big.append(c)
    for c in M.cases(12 if tier == 'quick' else 60, rng, steps=(300, 600), lowdim=0):
        c.update(kind='long-' + c['kind'], n=4, L=rng.choice([1, 2, 3]), bc='reflect', p_interior=0, exact=False, p_add=0.01, speeds=[.05, .6, .35, 0, 0, 0], efield=0.01, small=True)
        c.pop('vary', None)
        big.append(c)
    return big + out


PLAN = Plan('C02', modules=M.MODULES + M.VMON, cases=cases,
            required={'steps': 1500, 'deleted': 1500, 'survivors': 3000, 'all_deleted': 60, 'exactly_full': 200, 'segments_compacted': 200,
                      'particles_added_later': 500, 'uniform_steps': 100, 'uniform_exactly_full': 20},
            rule='random worlds (engine, coordinate system, mesh, species, segment length, boundary behaviours, additions between steps); a step is distinct by '
                 '(engine, coordinates, mesh dimension, species kinds, segment length, boundary mode, field element, boundary-call class, exactly-full) and non-trivial '
                 'when particles are deleted, compacted across segments or a store is exactly full',
            assumptions=['identity numbers given to the particles are distinct', 'a particle is deleted exactly when a boundary function sets its delete flag'])
