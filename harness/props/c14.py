"""Diagnostics and histories against sums recomputed from the enumerated particles."""
import math
import numpy as np
from world import World


def truth(W, sn):
    a = W.snapshot(sn)
    w = [float(v) for v in a['weight']]
    u = W.U(a)
    num = math.fsum(w)
    ke = math.fsum(0.5 * W.m[sn] * wi * float(c) ** 2 for wi, row in zip(w, u) for c in row)
    return len(a), num, ke


def diagnostics(W, R, when):
    P = W.P
    order = list(W.names)
    before = {sn: W.snapshot(sn).tobytes() for sn in W.names}
    tot = 0
    for sn in order:
        n, num, ke = truth(W, sn)
        tot += n
        R.count('diagnostics')
        c = P.get_species_particle_count(sn)
        R.check(int(c) == n, 'count', lambda: '%s: get_species_particle_count(%s) is %r, %d particles are stored' % (when, sn, c, n))
        s = P.get_species_number(sn)
        R.check(abs(s - num) <= 1e-11 * max(abs(num), 1e-300), 'number', lambda: '%s: get_species_number(%s) is %r, the weights sum to %r' % (when, sn, s, num))
        k = P.get_species_KE(sn)
        R.check(abs(k - ke) <= 1e-10 * max(abs(ke), 1e-300), 'kinetic-energy', lambda: '%s: get_species_KE(%s) is %r, recomputed %r' % (when, sn, k, ke))
    t = P.get_total_particle_count()
    R.check(int(t) == tot, 'total', lambda: '%s: get_total_particle_count is %r, %d particles are stored' % (when, t, tot))
    for sn in W.names:
        R.check(W.snapshot(sn).tobytes() == before[sn], 'altered', '%s: asking for diagnostics changed the particles of %s' % (when, sn))


def run(case, R):
    import RecordedData_Module as RD
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 17)
    P, ctrl = W.P, W.ctrl
    ctrl.n_timesteps = case['n_timesteps']
    hist = None
    if case['history']:
        hi = RD.ParticleHistoryInput_C()
        hi.max_points = case['max_points']
        hi.scalar_histories = [h for h in case['history']]
        hist = P.histories = RD.ParticleHistory_C(hi, ctrl, P.history_function_dict, P.species_names)
        cap = len(hist.data_array)
        if case['max_points'] is None:
            R.check(cap >= case['n_timesteps'] + 1, 'history-size', lambda: 'room for %d points in a run of %d steps' % (cap, case['n_timesteps']))
        else:
            # recording every skip'th step of the run must fit, within the requested maximum
            need = len([i for i in range(case['n_timesteps'] + 1) if i % hist.skip == 0])
            R.check(cap >= need, 'history-size', lambda: 'room for %d points; every %d of %d steps gives %d' % (cap, hist.skip, case['n_timesteps'], need))
    rows = []

    def record():
        if hist is None:
            return
        before = {sn: W.snapshot(sn).tobytes() for sn in W.names}
        P.record_history_data(ctrl.timeloop_count, ctrl.time)
        R.check(all(W.snapshot(sn).tobytes() == before[sn] for sn in W.names), 'altered', 'recording histories changed the particles')
        if len(rows) < cap:
            rows.append((ctrl.timeloop_count, ctrl.time, {sn: truth(W, sn) for sn in W.names}))
            R.count('history_points')
        else:
            R.count('history_overflow')
        d = hist.data_array
        R.check(len(d) == cap and int(hist.counter) == len(rows), 'history-counter', lambda: '%d points counted, %d recorded' % (hist.counter, len(rows)))
        for i, (st, t, v) in enumerate(rows):
            R.check(int(d['step'][i]) == st, 'history-step', lambda: 'point %d has step %r, recorded at %d' % (i, d['step'][i], st))
            R.check(abs(float(d['t'][i]) - t) <= 1e-6 * max(abs(t), 1e-30), 'history-time', lambda: 'point %d has time %r, recorded at %r' % (i, d['t'][i], t))
            for h in case['history']:
                j = 0 if h == 'count' else 2
                tot = 0.0
                for sn in W.names:
                    n, num, ke = v[sn]
                    val = v[sn][j]
                    tot += val
                    got = float(d['%s_%s' % (sn, h)][i])
                    R.check(abs(got - val) <= 2e-7 * abs(val), 'history-value', lambda: 'point %d: %s of %s is %r, it was %r' % (i, h, sn, got, val))
                    if num >= 1:
                        got = float(d['%s_ppp_%s' % (sn, h)][i])
                        R.check(abs(got - val / num) <= 5e-7 * abs(val / num), 'history-per-particle', lambda: 'point %d: %s per particle of %s is %r, it was %r' % (i, h, sn, got, val / num))
                got = float(d[h][i])
                R.check(abs(got - tot) <= 5e-7 * abs(tot), 'history-total', lambda: 'point %d: total %s is %r, it was %r' % (i, h, got, tot))
            R.count('history_checked')

    for sn in W.names:
        n = int(rng.integers(0, 3 * case['L'] + 2)) if case['n'] is None else case['n']
        if case.get('exact'):
            n = case['L'] * int(rng.integers(1, 4))
        W.add(sn, W.new_particles(sn, n, rng))
    diagnostics(W, R, 'after creation')
    W.locate()
    if rng.random() < 0.7:
        record()
    total0 = sum(len(W.snapshot(s)) for s in W.names)
    for step in range(case['steps']):
        if rng.random() < case['p_add']:
            sn = W.names[int(rng.integers(0, len(W.names)))]
            W.add(sn, W.new_particles(sn, int(rng.integers(1, 2 * case['L'] + 2)), rng))
            diagnostics(W, R, 'after adding')
        pre = sum(len(W.snapshot(s)) for s in W.names)
        had = {s: len(W.snapshot(s)) for s in W.names}
        W.advance()
        post = sum(len(W.snapshot(s)) for s in W.names)
        R.count('deletions', pre - post)
        for sn in W.names:
            gone = had[sn] - len(W.snapshot(sn))
            if gone > 0 and rng.random() < 0.4:
                # as many new ones as were deleted: the count is the same as at the last look, nothing else is
                W.add(sn, W.new_particles(sn, gone, rng))
                W.locate()
                R.count('replaced', gone)
            elif had[sn] and rng.random() < 0.15:
                # the user alters the particles in place
                sap = W.P.sap_dict[sn]
                m, seg = sap.init_out_loop()
                while isinstance(seg, np.ndarray):
                    seg['weight'][:m] *= 0.5 + rng.random()
                    seg[W.P.velocity_coordinates[0]][:m] *= 0.5 + rng.random()
                    m, seg = sap.get_next_segment('out')
                R.count('altered_in_place')
        diagnostics(W, R, 'step %d' % step)
        if rng.random() < 0.8:
            record()
        R.sig(case['engine'], case['coord'], len(W.names), 'L%d' % case['L'], post % case['L'] == 0, post == 0, pre > post, str(case['history']), len(rows) >= 3)
