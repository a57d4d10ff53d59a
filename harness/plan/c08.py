from plans import Plan
import moverplan as M

EL = [['CG', 1], ['CG', 1], ['CG', 2], ['DG', 1], ['DG', 0]]


def cases(tier, rng):
    n = 900 if tier == 'quick' else 15000
    out = M.cases(n, rng, steps=(1, 2, 4), p_add=0)
    for i, c in enumerate(out):
        c['density'] = EL[i % len(EL)]
        c['n'] = rng.choice([None, None, 0, 1, 7])
        if c['L'] == 100:
            c['n'] = 20
        c['kind'] += '-' + c['density'][0] + str(c['density'][1])
        c.pop('switch', None)
    big = M.large(14 if tier == 'quick' else 36, rng)
    for j, c in enumerate(big):
        c['density'] = EL[j % len(EL)]
        c['p_add'] = 0
        c.pop('switch', None)
    return big + out


PLAN = Plan('C08', modules=M.MODULES + M.VMON, cases=cases,
            required={'dof_arrays_checked': 1000, 'cell_arrays_checked': 500, 'charge_arrays_checked': 800, 'particles_deposited': 5000, 'repeated_calls': 200,
                      'empty_species': 50, 'exactly_full': 100, 'other_order_checked': 300, 'searching_variant_checked': 1000, 'other_element_checked': 300},
            rule='random worlds (both stores, 1-3D, cartesian and spherical), before and after advances; the density arrays are recomputed from the stored particles with '
                 'Lagrange bases rebuilt from the coordinates of the degrees of freedom; distinct by (engine, coordinates, mesh dimension, density element, segment length, '
                 'number of species, after an advance, an empty species)',
            assumptions=['densities are compared to 1e-9 of the sum of the weights', 'density elements CG1, CG2, DG1, DG0', 'cell densities start from zero, and use one call per reset'])
