from plans import Plan
import moverplan as M

WORLDS = [('cartesian_x', 1), ('cartesian_xy', 2), ('cartesian_xyz', 3), ('spherical_r', 1), ('cartesian_xyz', 2), ('cartesian_xy', 1), ('cartesian_xyz', 1)]
EL = [['DG', 0], ['DG', 0], ['CG', 1], ['DG', 1], ['CG', 2]]


def cases(tier, rng):
    n = 2000 if tier == 'quick' else 15000
    out = []
    for i in range(n):
        c, g = WORLDS[i % len(WORLDS)]
        el = EL[(i // len(WORLDS)) % len(EL)]
        ft = 'vector' if rng.random() < 0.8 else 'scalar'
        out.append(dict(kind='%s-%d-%s%d-%s' % (c, g, el[0], el[1], ft), engine='py', coord=c, gdim=g, species=['charged'], L=rng.choice([1, 3, 8]), steps=3,
                        seed=rng.randrange(1 << 30), fel=el, ftype=ft, no_field=True, zero=int(rng.random() < 0.4), stats=int(ft == 'vector' and rng.random() < 0.12)))
    # what the movers (C++ and Python) do with the values
    mov = M.cases(240 if tier == 'quick' else 4000, rng, steps=(3, 5), lowdim=0.1) + M.large(14 if tier == 'quick' else 40, rng)
    for c in mov:
        c.pop('no_field', None)
    for d in mov:
        if 'charged' in d['species']:
            d['species'] = ['charged'] * len(d['species'])
            d.update(mover=1, kind='mover-' + d['kind'], L=rng.choice([1, 3, 8, 20]), vmon=False, n=None, exact=False)
            d.pop('switch', None)
            out.append(d)
    return out


PLAN = Plan('C09', modules=M.MODULES + M.VMON, cases=cases,
            required={'python_values': 5000, 'cpp_values': 1000, 'random_values': 3000, 'random_zero_field': 300, 'shared_points': 300, 'subsets': 800, 'random_distributions': 20, 'axial_fields': 40, 'mover_values_cpp': 1000, 'mover_values_py': 1000},
            rule='random meshes, elements (DG0, DG1, CG1, CG2; vector and scalar) and particles; every interpolated value is compared with the field rebuilt from its degrees of '
                 'freedom in the cells containing the point; distinct by (coordinates, mesh dimension, element, field type, number of points, field partly zero)',
            assumptions=['on a shared facet a value of any cell containing the point is accepted (Python interpolator)', 'C++ interpolation of fields constant in each cell',
                         'the randomness of the external field is judged on samples of 2000 numbers with limits of 6.5 standard errors'])
