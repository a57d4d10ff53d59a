from plans import Plan


def cases(tier, rng):
    n = 500 if tier == 'quick' else 12000
    out = []
    for i in range(n):
        g = 1 + i % 3
        out.append(dict(kind='%dD' % g, gdim=g, spherical=g == 1 and rng.random() < 0.4, seed=rng.randrange(1 << 30), nregions=12, npoints=60, nfields=3,
                        mesh='reversed' if g == 1 and rng.random() < 0.3 else None))
    big = [dict(kind='large', gdim=g, spherical=sph, seed=rng.randrange(1 << 30), mesh='large', nregions=3, npoints=40, nfields=1)
           for g, sph in ((1, False), (1, True), (2, False), (3, False)) for _ in range(1 if tier == 'quick' else 4)]
    return big + out


PLAN = Plan('C17', modules=['mesh_entity_arrays_solib', 'numpy_types_solib', 'segmented_array_pair_solib'], cases=cases,
            required={'regions': 2000, 'partial_regions': 1000, 'empty_regions': 50, 'points_inside': 8000, 'points_outside': 1000, 'in_cell': 5000, 'field_ops': 3000, 'field_region_ops': 800, 'limits_at_midpoints': 200},
            rule='random irregular meshes; random boxes (straddling, thin slabs, half-spaces, single cells, empty), radial intervals, the whole mesh; random points inside, outside, at '
                 'vertices and near facets; random field operations with and without a region; distinct by (operation, element, region style, size class)',
            assumptions=['midpoints within 1e-6 of a cell size of a region limit and points within 1e-9 (barycentric) of a facet are not judged',
                         'spherical regions only on one-dimensional meshes, scaling on a region only for fields without shared degrees of freedom'])
