from plans import Plan


def cases(tier, rng):
    n = 9000 if tier == 'quick' else 60000
    out = []
    for i in range(n):
        w, g = [('xyz', 1), ('xyz', 2), ('xyz', 3), ('circ', 2), ('radial', 1)][i % 5]
        c = dict(kind='%s-%d' % (w, g), what=w, gdim=g, seed=rng.randrange(1 << 30))
        if rng.random() < 0.2:
            c['broken'] = rng.choice(['count', 'name', 'field', 'zero', 'missing'] if w == 'xyz' else ['name', 'field', 'zero', 'missing'])
        out.append(c)
    return out


PLAN = Plan('C18', modules=['mesh_entity_arrays_solib', 'numpy_types_solib', 'segmented_array_pair_solib'], cases=cases,
            required={'vertices': 5000, 'cells': 10000, 'facets': 20000, 'marked_facets': 4000, 'files_read': 50, 'refusals_tried': 80},
            rule='random domain sizes, cell counts, diagonals, stretch factors, opening angles and boundary dictionaries for the three user-mesh classes, also read back from files, and '
                 'inputs with a missing or invalid parameter; every vertex, cell and facet; distinct by (class, dimension, diagonal, stretch, dictionaries, one cell wide)',
            assumptions=['domain sizes 1e-3..1e4 (the code compares coordinates with an absolute tolerance of 1e-10)'])
