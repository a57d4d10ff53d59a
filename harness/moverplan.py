"""case generator shared by the mover properties (pure Python: no dolfin)"""
COMBOS = [('py', 'cartesian_x', ['charged']), ('py', 'cartesian_x', ['neutral']), ('py', 'spherical_r', ['charged']),
          ('py', 'cartesian_xy', ['charged', 'neutral']), ('py', 'cartesian_xy', ['charged', 'charged']), ('py', 'cartesian_xy', ['neutral', 'neutral']),
          ('py', 'cartesian_xyz', ['neutral']), ('py', 'cartesian_xyz', ['charged', 'neutral']),
          ('cpp', 'cartesian_x', ['charged', 'charged']), ('cpp', 'spherical_r', ['charged', 'charged', 'charged']),
          ('cpp', 'cartesian_xy', ['charged', 'charged']), ('cpp', 'cartesian_xy', ['neutral']), ('cpp', 'cartesian_xy', ['charged', 'neutral', 'neutral']),
          ('cpp', 'cartesian_xyz', ['neutral']), ('cpp', 'cartesian_xyz', ['neutral', 'neutral'])]
# 3-coordinate particles on 1- and 2-dimensional meshes
LOWDIM = [('cpp', 'cartesian_xyz', ['neutral'], 1), ('cpp', 'cartesian_xyz', ['neutral'], 2), ('py', 'cartesian_xyz', ['neutral'], 2),
          ('py', 'cartesian_xyz', ['charged'], 2), ('py', 'cartesian_xyz', ['neutral'], 1), ('py', 'cartesian_xy', ['charged'], 1),
          ('cpp', 'cartesian_xy', ['neutral'], 1)]
MODULES = ['segmented_array_pair_solib', 'numpy_types_solib', 'mesh_entity_arrays_solib', 'dolfin_functions_solib',
           'particle_cartesian_x_solib', 'particle_cartesian_xy_solib', 'particle_cartesian_xyz_solib', 'particle_spherical_r_solib']
SHIPPED = ['upbfs_spherical_r_solib', 'user_particle_boundary_functions_cartesian_x_solib', 'user_particle_boundary_functions_cartesian_xy_solib',
           'user_particle_boundary_functions_cartesian_xyz_solib', 'user_particle_boundary_functions_2D_e_cartesian_xy_solib']
VMON = ['vmon_cartesian_x_solib', 'vmon_cartesian_xy_solib', 'vmon_cartesian_xyz_solib', 'vmon_spherical_r_solib']


NEEDLE = 0.1


def large(n, rng, steps=(2, 3), engines=('py', 'cpp'), **kw):
    """meshes of more than 65536 cells, particles that move a few cells"""
    out = cases(n, rng, steps=steps, engines=engines, lowdim=0, **kw)
    for d in out:
        d.update(mesh='large', kind='large-%s-%s' % (d['engine'], d['coord']), n=40, L=rng.choice([5, 100]), exact=False, speeds=[.1, .3, .6, 0, 0, 0], element=['DG', 0])
        d.pop('older', None)
    # meshes of hundreds of cells, and particles that cross hundreds of them in one step
    for d in cases(2 * n, rng, engines=engines, lowdim=0, **dict(kw, steps=(2, 3))):
        d.update(mesh='medium', kind='medium-%s-%s' % (d['engine'], d['coord']), n=12, L=rng.choice([2, 5, 100]), exact=False, speeds=[0, .05, .15, .2, .4, .2])
        out.append(d)
    return out


def spread(pool, rng):
    """the combinations in random order, the engines in turn: a few cases still use both, and each of the species kinds"""
    py, cpp = ([c for c in rng.sample(pool, len(pool)) if c[0] == e] for e in ('py', 'cpp'))
    both = [c for p in zip(cpp, py) for c in p]
    return both + [c for c in py + cpp if c not in both]


def cases(n, rng, steps=(1, 2, 4, 8), engines=('py', 'cpp'), lowdim=0.12, **kw):
    out = []
    pool = [c for c in COMBOS if c[0] in engines]
    if n < 2 * len(pool):
        pool = spread(pool, rng)
    low = [c for c in LOWDIM if c[0] in engines]
    for i in range(n):
        if low and rng.random() < lowdim:
            e, c, s, g = low[i % len(low)]
        else:
            e, c, s = pool[i % len(pool)]
            g = {'cartesian_x': 1, 'spherical_r': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3}[c]
        d = dict(kind='%s-%s-%d' % (e, c, g), engine=e, coord=c, gdim=g, species=s, L=rng.choice([1, 2, 3, 4, 5, 8, 100]),
                 n=rng.choice([None, None, None, 0, 1]), exact=rng.random() < 0.25, steps=rng.choice(list(steps)), seed=rng.randrange(1 << 30),
                 bc=rng.choice(['mixed', 'mixed', 'absorb', 'reflect']), element=rng.choice([['DG', 0], ['DG', 0], ['CG', 1], ['DG', 1]]),
                 reflect_style=rng.choice(['own', 'P.dx']), p_add=rng.choice([0, 0.3, 0.7]), vmon=(e == 'cpp'))
        if d['L'] == 100:
            d['n'], d['exact'] = rng.choice([0, 3, 30]), False
        if e == 'cpp':
            d['element'] = ['DG', 0]      # the C++ interpolator is documented for constant-in-cell fields
        if s == ['charged'] * len(s) and rng.random() < 0.15:
            d['switch'] = 1
        # the older of the two Python movers for charged particles
        if e == 'py' and 'charged' in s and rng.random() < 0.3:
            d['older'] = 1
            d['kind'] += '-older'
        if g > 1 and rng.random() < NEEDLE:
            d['mesh'] = 'needle'
            d['kind'] += '-needle'
        if rng.random() < 0.15:
            d['vary'] = 1
        if rng.random() < 0.05:
            d['no_field'] = True
        d.update(kw)
        out.append(d)
    return out
