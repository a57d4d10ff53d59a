from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 5000 if tier == 'quick' else 80000
    out = M.cases(n, rng, steps=(1, 2, 4, 8))
    for c in out:
        c['scramble'] = rng.choice([None, None, 'none', 'stale', 'stale'])
    for c in M.cases(n // 8, rng, steps=(1, 2, 3), lowdim=0.0):
        c.update(kind='source-' + c['kind'], source=1, nsources=rng.choice([1, 2, 3]), region=rng.choice(['whole', 'box', 'box']))
        out.append(c)
    for c in M.cases(n // 40, rng, steps=(1,), lowdim=0.0):
        c.update(kind='stray-' + c['kind'], stray=1)
        out.append(c)
    big = M.large(14 if tier == 'quick' else 48, rng)
    return big + out


PLAN = Plan('C03', modules=M.MODULES + M.VMON, cases=cases,
            required={'located_locate': 3000, 'located_advance': 5000, 'crossing_counts_checked': 5000, 'many_crossings': 300, 'multi_reflections': 100, 'located_source': 2000, 'strays': 50},
            rule='random worlds; after every location, creation and advance the barycentric coordinates of every particle in the cell it names are computed from the vertex '
                 'coordinates; crossing counts are compared with a brute-force intersection of the path with every facet; distinct by (engine, coordinates, mesh dimension, '
                 'species, segment length, boundary mode, element, number of boundary calls, exactly full)',
            assumptions=['containment is judged with a tolerance of 1e-8 in barycentric coordinates',
                         'crossing counts are not compared on paths passing within 1e-7 (relative) of a facet edge or ending within 1e-9 of a facet'])
