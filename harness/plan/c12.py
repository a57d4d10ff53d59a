from plans import Plan


def cases(tier, rng):
    n = 3000 if tier == 'quick' else 20000
    out = []
    for i in range(n):
        g, s = [(1, '1D'), (1, '1DS'), (2, '2DCirc'), (1, '1D'), (1, '1DS'), (2, '1D')][i % 6]
        out.append(dict(kind='%s-%dD' % (s, g), gdim=g, solver=s, seed=rng.randrange(1 << 30), degree=rng.choice([1, 1, 1, 2]), efield=rng.random() < 0.7,
                        linear=rng.choice([(None, None), ('cg', 'ilu'), ('lu', None)]), solves=rng.choice([1, 3, 6]),
                        mesh='reversed' if (g, s) == (1, '1D') and rng.random() < 0.3 else None))
    return out


PLAN = Plan('C12', modules=['mesh_entity_arrays_solib', 'numpy_types_solib', 'segmented_array_pair_solib'], cases=cases,
            required={'solves': 600, 'charge_solves': 200, 'spherical_solves': 150, 'repeated': 40, 'equations': 3000, 'gradients': 5000},
            rule='random meshes, Dirichlet values and markers; sequences of solves with constant and linear source expressions and random charge vectors; every equation of the '
                 'discrete system; distinct by (solver, dimension, degree, operation, natural boundary, linear solver, position in the sequence)',
            assumptions=['residuals are judged relative to the size of the terms of each equation (1e-8)', 'potential elements CG1 and CG2, field elements DG0 and DG1'])
