"""Particle sources and listed particles against what was asked for."""
import numpy as np
from sources import SourceWorld

LOOSE = 1e-9


def source_of(W, sn, due, vol, weight, cell):
    """the due sources of this species whose weight in this cell is this one"""
    out = []
    for n in due:
        s = W.src[n]
        if s['par']['species_name'] == sn and cell in s['cells']:
            w = vol[cell] * s['par']['number_density'] / s['par']['number_per_cell']
            if abs(weight - w) <= 1e-9 * abs(w) + 1e-300:
                out.append(n)
    return out


def listed(W, R, rng):
    """initialize_particles on a dictionary of listed and source entries"""
    P = W.P
    lists, d, order = {}, {}, []
    for sn in W.names:
        lists[sn] = W.new_particles(sn, int(rng.integers(0, 3 * W.case['L'] + 3)), rng)

    class U:
        pass
    for sn in W.names:
        setattr(U, sn, staticmethod(lambda type, l=lists[sn]: (len(l), l)))
    P.user_particles_class = U
    entries = [(sn, 'listed') for sn in W.names if rng.random() < 0.8]
    if rng.random() < 0.4:
        entries += [(n, 'function_over_region') for n in W.src]
    rng.shuffle(entries)
    for i, (n, k) in enumerate(entries):
        if k == 'listed':
            d['ip%d' % i] = (dict(species_name=str(n), initial_distribution_type='listed'),)
        else:
            par, f, reg = P.particle_source_dict[n]
            d['ip%d' % i] = (dict(par, initial_distribution_type=str(k)), f, reg)
    P.initial_particles_dict = d
    before = {sn: W.snapshot(sn) for sn in W.names}
    np.random.seed((W.case['seed'] + 50021) % (1 << 31))
    P.initialize_particles({sn: False for sn in W.names}, neg_E_field=W.negE if rng.random() < 0.5 else None)
    due = [str(n) for n, k in entries if k != 'listed']
    kinds = {sn: [(str(n), k) for n, k in entries if (k == 'listed' and n == sn) or (k != 'listed' and W.src[n]['par']['species_name'] == sn)] for sn in W.names}
    for sn in W.names:
        new = W.snapshot(sn)
        nl = len(lists[sn]) if any(k == 'listed' for n, k in kinds[sn]) else 0
        nsrc = {n: W.src[n]['par']['number_per_cell'] * len(W.src[n]['cells']) for n, k in kinds[sn] if k != 'listed'}
        want = len(before[sn]) + nl + sum(nsrc.values())
        R.count('initializations')
        if not R.check(len(new) == want, 'initial-count', lambda: '%s: %d particles after initialisation; %d were there, %d listed, %r from functions'
                       % (sn, len(new), len(before[sn]), nl, nsrc)):
            continue
        if nl:
            exp = np.array(lists[sn], dtype=P.particle_dtype)
            # listed particles have identity numbers of their own
            got = new[np.isin(new['unique_ID'], exp['unique_ID'])]
            R.count('listed', nl)
            R.check(len(got) == nl and got.tobytes() == exp.tobytes(), 'listed',
                    lambda: '%s: the stored particles %r are not the listed ones %r, in their order' % (sn, got[:3], exp[:3]))
        rest = new[new['unique_ID'] < 1000000]
        arrivals(W, R, sn, due, np.zeros(0, dtype=new.dtype), rest, 'initialisation')
    if rng.random() < 0.3:
        P.initial_particles_dict = {'odd': (dict(species_name=W.names[0], initial_distribution_type='unheard_of'),)}
        try:
            P.initialize_particles({sn: False for sn in W.names})
            R.check(False, 'unknown-type', 'an unknown type of initial distribution was accepted')
        except (RuntimeError, SystemExit):
            R.count('refused')


def volumes(W):
    g = W.geo
    if W.coord == 'spherical_r':
        r = np.sort(g.V[:, :, 0], axis=1)
        return (r[:, 1] ** 3 - r[:, 0] ** 3) / 3.0          # per steradian
    return g.vol


def arrivals(W, R, sn, due, old, new, when):
    """old particles are still there, as they were, and the rest is what the due sources give"""
    P, g = W.P, W.geo
    vol = volumes(W)
    fired = [n for n in due if W.src[n]['par']['species_name'] == sn]
    want = sum(W.src[n]['par']['number_per_cell'] * len(W.src[n]['cells']) for n in fired)
    if not R.check(len(new) - len(old) == want, 'count', lambda: '%s of %s: %d particles became %d, the sources due %r give %d' % (when, sn, len(old), len(new), fired, want)):
        return
    olduid = set(old['unique_ID'].tolist())
    kept = new[np.isin(new['unique_ID'], list(olduid))]
    R.check(sorted(bytes(r) for r in kept) == sorted(bytes(r) for r in old), 'existing', '%s: particles of %s that were there before are not as they were' % (when, sn))
    add = new[~np.isin(new['unique_ID'], list(olduid))]
    if not R.check(len(add) == want, 'unique', lambda: '%s of %s: %d new particles have identity numbers of their own, %d were made' % (when, sn, len(add), want)):
        return
    if not fired:
        R.count('idle')
        R.count('assertions')
        return
    R.count('fired', len(fired))
    uid = add['unique_ID'].tolist()
    R.check(len(set(uid)) == len(uid) and not (set(uid) & W.alluid), 'unique', lambda: '%s of %s: identity numbers %r repeat' % (when, sn, sorted(uid)[:10]))
    W.alluid |= set(uid)
    X, U = W.X(add), W.U(add)
    cells = add['cell_index'].astype(int)
    if not R.check(((cells >= 0) & (cells < g.nc)).all(), 'cell', '%s: new particles of %s name no cell' % (when, sn)):
        return
    # numbers and weights, cell by cell
    total = {}
    for c in range(g.nc):
        mine = np.nonzero(cells == c)[0]
        exp = []
        for n in fired:
            if c in W.src[n]['cells']:
                par = W.src[n]['par']
                exp += [vol[c] * par['number_density'] / par['number_per_cell']] * par['number_per_cell']
        R.check(len(mine) == len(exp), 'per-cell', lambda: '%s: %d particles of %s in cell %d, %d wanted' % (when, len(mine), sn, c, len(exp)))
        got = np.sort(add['weight'][mine])
        if len(mine) == len(exp):
            R.check(np.allclose(got, np.sort(exp), rtol=1e-11, atol=0), 'weight', lambda: '%s: weights of %s in cell %d are %r, wanted %r' % (when, sn, c, got[:5], np.sort(exp)[:5]))
    want_n = sum(W.src[n]['par']['number_density'] * vol[W.src[n]['cells']].sum() for n in fired)
    R.check(abs(add['weight'].sum() - want_n) <= 1e-10 * abs(want_n), 'total', lambda: '%s: new particles of %s stand for %r, wanted %r' % (when, sn, add['weight'].sum(), want_n))
    # places
    central = np.zeros(g.nc, int)
    for i in range(len(add)):
        b = g.bary(int(cells[i]), X[i][:g.g])
        central[cells[i]] += abs(b - 1.0 / (g.g + 1)).max() < 1e-9
        R.check(b.min() > -1e-9, 'place', lambda: '%s: a particle of %s at %r says it is in cell %d (barycentric %r)' % (when, sn, X[i], cells[i], b))
        if W.pdim > g.g:
            R.check(not X[i][g.g:].any(), 'extra-coordinates', lambda: '%s: a particle on a %d-dimensional mesh made at %r' % (when, g.g, X[i]))
        R.count('particles')
        n = source_of(W, sn, fired, vol, add['weight'][i], int(cells[i]))
        if len(n) == 1:
            W.stat.setdefault(n[0], []).append((U[i], b, int(cells[i])))
    cmax = np.zeros(g.nc, int)
    for n in fired:
        cmax[W.src[n]['cells']] += 1
    R.check(np.array_equal(central, cmax), 'midpoint', lambda: '%s of %s: cells have %r particles at their midpoints, the sources give %r' % (when, sn, central[:10], cmax[:10]))
    R.check(all(np.array_equal(add[c], add[c + '0']) for c in W.pos), 'x0', '%s: the starting coordinates of new particles of %s are not their coordinates' % (when, sn))
    R.check(not add['crossings'].any(), 'crossings', '%s: new particles of %s have crossed cells already' % (when, sn))
    R.check(not (add['bitflags'] & ~W.PC.TRAJECTORY_FLAG).any(), 'flags', lambda: '%s: new particles of %s are flagged %r' % (when, sn, set(add['bitflags'].tolist())))
    key = np.round(X / g.hmin, 13)
    if len(fired) == 1 and len(add) < 2000:
        R.check(len(np.unique(key, axis=0)) == len(add), 'same-place', '%s: new particles of %s lie on top of one another' % (when, sn))
    R.sig(W.engine, W.coord, g.g, W.case['region'], len(fired), 'ppc%s' % sorted(W.src[n]['par']['number_per_cell'] for n in fired), 'L%d' % W.case['L'], len(old) == 0, len(new) % W.case['L'] == 0)


def retune(W, R, rng):
    """the user changes the parameters of a source between firings"""
    n = str(rng.choice(list(W.src)))
    par = W.src[n]['par']
    velocities(W, R, [n])
    W.stat.pop(n, None)
    k = int(rng.integers(0, 4))
    if k == 0:
        par['number_density'] = float(10.0 ** rng.uniform(-3, 12))
    elif k == 1:
        par['number_per_cell'] = int(rng.choice([1, 2, 4, 5]))
    elif k == 2:
        par['drift_velocity'] = tuple((rng.normal(0, 1, W.pdim) * W.geo.hmin / W.ctrl.dt).tolist())
        par['thermal_speed'] = float(rng.choice([0.0, rng.uniform(0.1, 3)]) * W.geo.hmin / W.ctrl.dt)
    else:
        par['timestep_interval'] = int(rng.integers(1, 6))
    R.count('retuned')


def velocities(W, R, names=None):
    """velocities of a source: exact without thermal spread; with it, mean and spread of every component"""
    for n, rows in W.stat.items():
        if names is not None and n not in names:
            continue
        par = W.src[n]['par']
        U = np.array([r[0] for r in rows])
        d = np.array(par['drift_velocity'])
        if par['thermal_speed'] == 0.0:
            R.count('cold_sources')
            R.check(np.allclose(U, d, rtol=1e-13, atol=0), 'drift', lambda: 'a source without thermal spread and drift %r made velocities %r' % (d, U[:3]))
            continue
        z = (U - d) / par['thermal_speed']
        N = len(z)
        if N >= 200:
            R.count('velocity_tests')
            m, v = z.mean(axis=0), (z ** 2).mean(axis=0)
            R.check((abs(m) < 6 / np.sqrt(N)).all(), 'drift', lambda: 'mean velocity less drift, over thermal speed, of %d particles is %r' % (N, m))
            R.check((abs(v - 1) < 7 * np.sqrt(2.0 / N) + 20.0 / N).all(), 'spread', lambda: 'the squared spread over the squared thermal speed of %d particles is %r' % (N, v))
            for a in range(z.shape[1]):
                for b in range(a):
                    c = (z[:, a] * z[:, b]).mean()
                    R.check(abs(c) < 7 / np.sqrt(N) + 10.0 / N, 'correlated', lambda: 'velocity components %d and %d are correlated: %r' % (a, b, c))
            k = (z ** 4).mean(axis=0)
            R.check((k > 1.9).all() and (k < 5.5).all() if N >= 1000 else True, 'not-normal', lambda: 'the fourth moment of the velocities of %d particles is %r, not 3' % (N, k))
        R.check(len(np.unique(z[:, 0])) == N, 'repeated', 'velocities repeat')
        ppc = par['number_per_cell']
        if ppc > 1 and N >= 300:
            B = np.array([r[1] for r in rows])
            # all but the one at the midpoint
            g = W.geo.g
            off = abs(B - 1.0 / (g + 1)).max(axis=1) > 1e-9
            M = B[off]
            R.count('place_tests')
            R.check(len(M) >= 0.4 * N, 'spread-out', lambda: 'only %d of %d particles are elsewhere than at the midpoint of their cell' % (len(M), N))
            # uniform over a cell: every barycentric coordinate has the distribution 1 - U**(1/g)
            ev, k = g / ((g + 1.0) ** 2 * (g + 2.0)), len(M)
            R.check((abs(M.mean(axis=0) - 1.0 / (g + 1)) < 7 * np.sqrt(ev / k)).all(), 'off-centre', lambda: 'mean barycentric coordinates of %d particles %r' % (k, M.mean(axis=0)))
            v = M.var(axis=0) / ev
            R.check((abs(v - 1) < 8 * np.sqrt(2.1 / k) + 10.0 / k).all(), 'spread-out', lambda: 'the barycentric coordinates vary %r times as much as places all over the cell do' % v)
            C = np.array([r[2] for r in rows])[off]
            for c in np.unique(C):
                L = M[C == c]
                for s in (0.15, 0.3, 0.5):
                    want = len(L) * s ** g
                    if want < 30:
                        continue
                    R.count('corner_tests')
                    for vert in range(g + 1):
                        got = int((L[:, vert] > 1 - s).sum())
                        R.check(rare(got, want) > 1e-11, 'corner', lambda: 'of %d particles in cell %d, %d lie in the corner at vertex %d that is %r of the cell (%.0f expected)'
                                % (len(L), c, got, vert, s ** g, want))


def rare(got, want):
    """probability of as few or fewer counts (Poisson)"""
    if want > 300:
        return 0.0 if got < want - 8 * np.sqrt(want) else 1.0
    t = np.exp(-want)
    p = t
    for k in range(1, got + 1):
        t *= want / k
        p += t
    return p


def run(case, R):
    W = SourceWorld(case)
    rng = np.random.default_rng(case['seed'] + 17)
    P, ctrl = W.P, W.ctrl
    W.alluid, W.stat = set(), {}
    listed(W, R, rng)
    ctrl.timeloop_count = int(rng.choice([-1, -1, 0, 0, 1, 58, 999]))      # the first firing may be at step 0
    for step in range(case['steps']):
        ctrl.timeloop_count += 1
        ctrl.time += ctrl.dt
        if rng.random() < case.get('p_retune', 0):
            retune(W, R, rng)
        old = {sn: W.snapshot(sn) for sn in W.names}
        due = W.due()
        W.fire()
        for sn in W.names:
            arrivals(W, R, sn, due, old[sn], W.snapshot(sn), 'step %d' % ctrl.timeloop_count)
        R.count('steps')
        if rng.random() < case['p_move'] and sum(len(old[s]) for s in W.names) < 1500:
            # some leave: the storage is no longer compact in creation order
            ctrl.timeloop_count -= 1
            ctrl.time -= ctrl.dt
            n0 = sum(len(W.snapshot(s)) for s in W.names)
            W.advance()
            W.take_log()
            R.count('deletions', n0 - sum(len(W.snapshot(s)) for s in W.names))
    velocities(W, R)
