"""Location: after every location, creation and advance, each particle's cell contains it."""
import numpy as np
import movers


def where(W, R, sn, a, key, when):
    X = W.X(a)
    for i in range(len(a)):
        c = int(a['cell_index'][i])
        R.count('located_' + key)
        ok = 0 <= c < W.geo.nc and np.all(np.isfinite(X[i])) and W.geo.bary(c, X[i]).min() >= -1e-8
        if not ok:
            out = bool(np.all(np.isfinite(X[i])) and W.geo.outside_all(X[i], 1e-8))
            R.check(False, key + (':outside-mesh' if out else ':wrong-cell'), '%s: particle %d of %s at %r names cell %d (barycentric %r)%s' % (
                when, a['unique_ID'][i], sn, X[i].tolist(), c, W.geo.bary(c, X[i]).tolist() if 0 <= c < W.geo.nc else None, ', which is outside the mesh' if out else ''))
        else:
            R.count('assertions')


def located(W, R):
    for sn in W.names:
        where(W, R, sn, W.snapshot(sn), 'locate', 'after compute_mesh_cell_indices')


def judge(W, R, step, pre, post, log, pred):
    for sn in W.names:
        b = post[sn]
        where(W, R, sn, b, 'advance', 'step %d' % step)
        now = movers.by_uid(b)
        for p, t in zip(pre[sn], pred[sn]):
            q = now.get(int(p['unique_ID']))
            if q is None or t['delicate'] or t['fate'] != 'alive':
                continue
            R.count('crossing_counts_checked')
            R.count('many_crossings', t['crossings'] > 5)
            R.check(int(q['crossings']) == t['crossings'], 'crossings', lambda: 'step %d %s particle %d: %d crossings stored, its path crossed %d facets' % (
                step, sn, p['unique_ID'], q['crossings'], t['crossings']))
            # a path that ends well inside one cell leaves no choice
            R.check(W.geo.bary(int(q['cell_index']), t['end']).min() > -1e-6, 'cell-of-path-end', lambda: 'step %d %s particle %d ends at %r, not in cell %d' % (
                step, sn, p['unique_ID'], t['end'].tolist(), q['cell_index']))


def source(case, R):
    """generated source particles name the cell they are in"""
    import sources
    S = sources.SourceWorld(case)
    for step in range(case['steps']):
        S.fire()
        for sn in S.names:
            a = S.snapshot(sn)
            where(S, R, sn, a, 'source', 'after firing a source')
            R.sig('source', case['engine'], case['coord'], len(a) % case['L'] == 0)


def stray(case, R):
    """locating must not leave a particle outside the mesh with the name of a cell"""
    from world import World
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 5)
    sn = W.names[0]
    lst = W.new_particles(sn, int(rng.integers(0, 2 * case['L'] + 2)), rng)
    bad = list(W.new_particles(sn, 1, rng)[0])
    g = W.geo
    while True:
        x = rng.uniform(g.X.min(axis=0) - g.L, g.X.max(axis=0) + g.L)
        if g.outside_all(x, 1e-6):
            break
    bad[:g.g] = x.tolist()
    lst.insert(int(rng.integers(0, len(lst) + 1)), tuple(bad))
    W.add(sn, lst)
    R.count('strays')
    R.sig('stray', case['engine'], case['coord'], len(lst))
    try:
        W.locate()
    except (Exception, SystemExit):
        R.count('assertions')
        return
    a = W.snapshot(sn)
    R.check(False, 'stray-accepted', lambda: 'locating accepted a particle at %r, outside the mesh; cells now named: %r' % (x.tolist(), a['cell_index'].tolist()))


def run(case, R):
    if case.get('stray'):
        return stray(case, R)
    if case.get('source'):
        return source(case, R)
    movers.run(case, R, judge, located=located)
