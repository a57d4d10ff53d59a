from plans import Plan


def cases(tier, rng):
    n = 1800 if tier == 'quick' else 12000
    big = [dict(kind='large', gdim=g, seed=rng.randrange(1 << 30), npoints=400, mesh='large') for g in (1, 2, 3) for _ in range(1 if tier == 'quick' else 4)]
    return big + [dict(kind='%dD' % (1 + i % 3), gdim=1 + i % 3, seed=rng.randrange(1 << 30), npoints=60, mesh='reversed' if i % 3 == 0 and rng.random() < 0.4 else 'needle' if i % 3 and rng.random() < 0.1 else None) for i in range(n)]


PLAN = Plan('C10', modules=['mesh_entity_arrays_solib', 'dolfin_functions_solib', 'numpy_types_solib'], cases=cases,
            required={'facet_searches': 20000, 'crossing': 8000, 'ends_inside': 2000, 'tied': 200, 'inside_tests': 20000, 'inside_near_facet': 3000, 'inside_true': 5000, 'minute_moves': 1500},
            rule='random irregular meshes; starts inside, on and next to facets and at vertices; moves of any length, towards vertices, along facets and ending inside; inside '
                 'tests at random points, on facets and one rounding unit to either side, judged in exact rational arithmetic; distinct by (dimension, start, move, crossing, ties)',
            assumptions=['where two facets are met within 1e-9 cell sizes of each other either is accepted'])
