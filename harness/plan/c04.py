from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 5000 if tier == 'quick' else 80000
    out = M.cases(n, rng, steps=(1, 2, 4, 8))
    # fields switched per species, no field at all, random external fields
    for c in M.cases(n // 5, rng, steps=(2, 4)):
        if 'charged' in c['species']:
            c['switch'] = rng.choice([None, 1])
            if c['engine'] == 'py':
                c['no_field'] = rng.random() < 0.3
                c['external'] = True
                c['bc'] = 'absorb'
            elif rng.random() < 0.5:
                c['switch'] = 1
        out.append(c)
    # the boundary functions that come with the library
    for c in M.cases(n // 6, rng, steps=(1, 2, 4), lowdim=0, bc='shipped'):
        c['kind'] += '-shipped'
        out.append(c)
    for i in range(n // 10):
        L = rng.choice([1, 2, 3, 5])
        out.append(dict(kind='uniform', uniform=1, engine='py' if i % 2 else 'cpp', coord='cartesian_xyz', gdim=3, species=['charged'], L=L,
                        nu=rng.choice([1, L, 2 * L, 2 * L + 1]), steps=3, seed=rng.randrange(1 << 30), no_field=True))
    big = M.large(14 if tier == 'quick' else 48, rng)
    return big + out


PLAN = Plan('C04', modules=M.MODULES + M.VMON + M.SHIPPED, cases=cases,
            required={'moves_checked': 8000, 'kicked': 3000, 'reflected_once': 1000, 'reflected_more': 200, 'absorbed_checked': 1000, 'field_switched_off': 100,
                      'external_kick': 200, 'external_zero': 50, 'uniform_moves': 300},
            rule='random worlds; each step of each particle is compared with a reference that knows only the equations of motion, the cell field values and the positions of '
                 'the marked facets; distinct as for C02; non-trivial when the particle is kicked, reflected or absorbed',
            assumptions=['the field reference is dolfin\'s own evaluation of the field in the particle\'s cell',
                         'paths within 1e-9 of a cell edge or facet end are not compared', 'positions and velocities are compared to 1e-9 relative'])
