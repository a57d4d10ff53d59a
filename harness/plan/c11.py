from plans import Plan


def cases(tier, rng):
    n = 600 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        g = 1 + i % 3
        sph = g == 1 and rng.random() < 0.5
        out.append(dict(kind='%dD' % g, gdim=g, spherical=sph, seed=rng.randrange(1 << 30), how=rng.choice(['mesh', 'mesh', 'copy', 'file', 'particles']),
                        cells=rng.choice([None, 'shuffled']), again=rng.random() < 0.4, twin=rng.choice([None, 'numbers', 'mirror']), mesh='reversed' if g == 1 and rng.random() < 0.4 else None))
    big = [dict(kind='large', gdim=g, spherical=sph, seed=rng.randrange(1 << 30), mesh='large', how='mesh', cells=None, again=False)
           for g, sph in ((1, False), (1, True), (2, False), (3, False)) for _ in range(1 if tier == 'quick' else 4)]
    return big + out


PLAN = Plan('C11', modules=['mesh_entity_arrays_solib', 'numpy_types_solib', 'segmented_array_pair_solib'], cases=cases,
            required={'cells': 5000, 'cell_facets': 20000, 'boundary_facets': 5000, 'shell_volumes': 300, 'cpp_cells': 5000, 'twins': 200},
            rule='random irregular meshes (boxes, annuli, skewed, shuffled numbering, reversed axes, radial), built, copied, read from a file or prepared for particles; every entry of every table; also with a renumbered or mirrored twin made beside the first mesh; '
                 'distinct by (dimension, coordinates, origin, numbering, recomputed, cells)',
            assumptions=['meshes are valid simplicial meshes without inverted or degenerate cells'])
