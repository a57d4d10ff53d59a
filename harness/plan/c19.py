from plans import Plan
import moverplan as M

WORLDS = [('cartesian_x', 1, ['charged', 'charged'], ('py', 'cpp')), ('spherical_r', 1, ['charged', 'charged'], ('py', 'cpp')), ('cartesian_xy', 2, ['charged', 'charged'], ('py', 'cpp')),
          ('cartesian_xy', 2, ['charged', 'neutral'], ('py', 'cpp')), ('spherical_r', 1, ['charged'], ('py', 'cpp')), ('cartesian_xy', 2, ['charged', 'charged', 'neutral'], ('py', 'cpp'))]


def cases(tier, rng):
    n = 900 if tier == 'quick' else 6000
    out = []
    for i in range(n):
        c, g, sp, en = WORLDS[i % len(WORLDS)]
        mode = rng.choice(['engine', 'engine', 'layout', 'diagnostics', 'all', 'all'])
        e = rng.choice(en)
        engines = [e, e]
        if mode in ('engine', 'all'):
            engines = rng.sample(list(en), 2)
        L = rng.choice([1, 2, 3, 5, 8, 100])
        Ls = [L, rng.choice([1, 2, 3, 4, 7, 100]) if mode in ('layout', 'all') else L]
        extras = [rng.random() < 0.3] * 2
        if mode in ('diagnostics', 'all'):
            extras = [not extras[0], extras[0]]
        out.append(dict(kind='%s-%d-%s' % (c, g, mode), coord=c, gdim=g, species=sp, engine=engines[0], engines=engines, L=L, Ls=Ls, extras=extras, seed=rng.randrange(1 << 30), steps=rng.choice([3, 6, 10]),
                        n0=rng.choice([0, 3, 8]), nsources=rng.choice([1, 2, 3]), region=rng.choice(['whole', 'box']), per_cell=rng.choice([[1], [2], [1, 2, 3]]), small=g == 2,
                        bc=rng.choice(['absorb', 'mixed', 'reflect']), p_interior=0.15, speeds=[.05, .3, .4, .2, .05, 0], factor=rng.choice([None, None, 1.0, 0.3]), reflect_style='own', vmon=True))
    return out


PLAN = Plan('C19', modules=M.MODULES + M.VMON, cases=cases,
            required={'solves': 800, 'moves': 10000, 'charge_matters': 200, 'added': 5000, 'compared': 10000, 'pairs_engine': 30, 'pairs_layout': 10, 'pairs_diagnostics': 10, 'histories': 40},
            rule='the time loop of the example programs on random one- and two-dimensional Cartesian and spherical-radial worlds, with sources, absorbing, reflecting and interior boundaries; '
                 'each run is made twice, with another engine, segment length or set of diagnostics; distinct by (coordinates, engines, what differs, segment lengths, species, region, boundaries, factor)',
            assumptions=['the two engines are compared over the first two steps, up to the first particle that passes within 1e-9 of a cell edge, to 1e-7 (particles) and 1e-6 (fields): rounding differences grow through the field',
                         'runs of one engine that differ in storage or diagnostics are compared over all steps to 1e-12'])
