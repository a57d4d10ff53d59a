"""Trajectories: the storage is compared after every step with an identity-keyed shadow history.

A shadow trajectory is started when a flagged particle is created.  Its points come from the recordings
(the particle's own record, found by its identity number), from the monitored boundary calls (one point
per call, on the facet, at the interpolated time) and from the removal of the particle."""
import numpy as np
from world import World
from sources import SourceWorld
import movers


class Shadow:
    def __init__(self, cap):
        self.points, self.open, self.cap, self.sure = [], True, cap, True

    def add(self, **kw):
        if len(self.points) < self.cap:
            self.points.append(kw)
            return True
        return False


def field(W, F, x, c):
    return W.field_at(F, x, c) if F is not None else np.zeros(W.geo.g)


def compare(W, R, shadows, scale, step):
    T = W.P.traj_T
    got = W.trajectories()
    for sn in W.names:
        R.check(len(T.data_list[sn]) == len(T.particle_index_list[sn]) == len(T.trajectory_length[sn]) == len(T.particle_unique_id_list[sn]), 'lists', 'trajectory lists of different lengths')
    if not R.check(sorted(got) == sorted(shadows) and all(len(v) == 1 for v in got.values()), 'set', lambda: 'step %d: trajectories exist for %r, expected for %r' % (
            step, {k: len(v) for k, v in got.items()}, sorted(shadows))):
        return
    for k, s in shadows.items():
        sn, uid = k
        d, idx, n = got[k][0]
        R.count('trajectories_compared')
        R.check(n <= s.cap and len(T.data_list[sn][0]) == s.cap, 'capacity', lambda: '%r: %d points in storage for %d (expected %d)' % (k, n, len(T.data_list[sn][0]), s.cap))
        R.check((idx == -1) != s.open, 'open', lambda: 'step %d %r: trajectory is %s although its particle is %s' % (step, k, 'closed' if idx == -1 else 'open', 'there' if s.open else 'gone'))
        if s.open and idx >= 0:
            seg, off = W.P.sap_dict[sn].get_segment_and_offset(idx)
            R.count('index_followed')
            R.check(int(seg[off]['unique_ID']) == uid, 'follows-wrong-particle', lambda: 'step %d %r: trajectory now points at particle %d (index %d)' % (step, k, seg[off]['unique_ID'], idx))
        if not R.check(n == len(s.points), 'length', lambda: 'step %d %r: %d points recorded, expected %d: %r' % (step, k, n, len(s.points), [(p['kind'], p['step']) for p in s.points])):
            continue
        R.count('full', n == s.cap)
        names = d.dtype.names
        for i, p in enumerate(s.points):
            if p.get('checked'):
                if not p['hot']:
                    R.check(d[i].tobytes() == p['bytes'], 'rewritten', lambda: 'step %d %r: point %d was changed after it had been recorded' % (step, k, i))
                    continue
            R.count('points_compared')
            R.count('points_' + p['kind'])
            R.check(int(d['unique_ID'][i]) == uid if 'unique_ID' in names else True, 'identity', lambda: '%r: point %d is of particle %d' % (k, i, d['unique_ID'][i]))
            R.check(int(d['step'][i]) == p['step'], 'step', lambda: '%r: point %d (%s) has step %d, expected %d' % (k, i, p['kind'], d['step'][i], p['step']))
            t = d['t'][i]
            if p['t'] is not None:
                R.check(abs(t - p['t']) <= scale['t'], 'time:' + p['kind'], lambda: 'step %d %r: point %d (%s) has time %r, expected %r' % (step, k, i, p['kind'], t, p['t']))
            else:
                R.check(p['tmin'] - scale['t'] <= t <= p['tmax'] + scale['t'], 'time-range', lambda: '%r: point %d has time %r, not within %r..%r' % (k, i, t, p['tmin'], p['tmax']))
            if i:
                R.check(t >= d['t'][i - 1] - scale['t'], 'time-order', lambda: '%r: time goes from %r to %r at point %d' % (k, d['t'][i - 1], t, i))
            for key, ns, sc in (('x', W.pos, scale['x']), ('u', W.un, scale['u'])):
                if p[key] is None:
                    continue
                v = np.array([d[c][i] for c in ns])
                R.check(np.all(np.abs(v - p[key]) <= sc), key + ':' + p['kind'], lambda: 'step %d %r: point %d (%s) has %s = %r, expected %r' % (step, k, i, p['kind'], key, v.tolist(), np.asarray(p[key]).tolist()))
            if W.kind[sn] == 'charged':
                for key, suf in (('E', ''), ('X', '_ext')):
                    if p.get(key) is None:
                        continue
                    v = np.array([d['E' + c + suf][i] for c in W.P.force_components])
                    R.count('fields_compared')
                    R.check(np.all(np.abs(v - p[key]) <= scale['E']), 'field' + suf + ':' + p['kind'], lambda: 'step %d %r: point %d (%s) has E%s = %r, expected %r' % (step, k, i, p['kind'], suf, v.tolist(), p[key].tolist()))
            p['checked'], p['hot'], p['bytes'] = True, False, d[i].tobytes()


def run(case, R):
    W = SourceWorld(case) if case.get('nsources') else World(case)
    rng = np.random.default_rng(case['seed'] + 3)
    T = W.enable_trajectories(case['n_timesteps'], max_points=case.get('max_points'), extra=case['extra'])
    skip = 1 if case.get('max_points') is None else int(case['n_timesteps'] / case['max_points'] + 1)
    cap = int(case['n_timesteps'] / skip + 1 + case['extra'])
    R.check(T.skip == skip, 'skip', lambda: 'skip is %r, expected %r' % (T.skip, skip))
    shadows = {}
    last = [None]
    emax = 1e-300
    for F in (W.negE, W.ext):
        if F is not None:
            emax = max(emax, float(np.abs(F.function_values[:]).max()))

    def scales():
        u = max([float(np.abs(W.U(W.snapshot(sn))).max(initial=0)) for sn in W.names] + [1e-300]) + max(abs(W.q[s] / W.m[s]) for s in W.names) * W.ctrl.dt * emax * 10
        x = W.geo.L + float(np.abs(W.geo.X).max()) + u * W.ctrl.dt
        return dict(x=1e-9 * x, u=1e-9 * u, t=1e-9 * (abs(W.ctrl.time) + W.ctrl.dt), E=1e-9 * emax)

    def add(sn, k):
        lst = W.new_particles(sn, k, rng, traj=case.get('p_traj', 0.5))
        W.add(sn, lst)
        for l in lst:
            if l[3 * W.pdim + 1] & W.PC.TRAJECTORY_FLAG:
                shadows[sn, l[3 * W.pdim + 3]] = Shadow(cap)

    def record():
        before = {sn: W.snapshot(sn) for sn in W.names}
        W.record()
        for sn in W.names:
            R.check(np.array_equal(before[sn], W.snapshot(sn)), 'disturbs', 'recording trajectories changed the particles')
        if W.ctrl.timeloop_count == last[0]:
            R.count('second_recordings')
            return
        last[0] = W.ctrl.timeloop_count
        for sn in W.names:
            now = movers.by_uid(before[sn])
            for (s, uid), sh in shadows.items():
                if s == sn and sh.open:
                    p = now[uid]
                    x = np.array([p[c] for c in W.pos], float)
                    c = int(p['cell_index'])
                    inside = 0 <= c < W.geo.nc
                    ok = sh.add(kind='recorded', step=W.ctrl.timeloop_count, t=W.ctrl.time, x=x, u=np.array([p[c] for c in W.un], float),
                                E=-field(W, W.negE, x, c) if inside and case.get('element', ['DG', 0])[1] == 0 else None, X=field(W, W.ext, x, c) if inside else None)
                    R.count('dropped_when_full', not ok)

    for sn in W.names:
        add(sn, case['n'] if case['n'] is not None else int(rng.integers(0, 3 * case['L'] + 2)))
    W.locate()
    if case.get('record0', True):
        record()
    compare(W, R, shadows, scales(), 0)
    W.take_log()
    for step in range(case['steps']):
        if step and rng.random() < case.get('p_add', 0.3):
            sn = W.names[int(rng.integers(0, len(W.names)))]
            have = len(W.snapshot(sn))
            add(sn, (-have) % case['L'] if rng.random() < 0.5 else int(rng.integers(1, case['L'] + 2)))
            W.locate()
        pre = {sn: W.snapshot(sn) for sn in W.names}
        Eon = {}
        for sn in W.names:
            a = W.ctrl.apply_solved_electric_field
            Eon[sn] = W.negE is not None and (a is None or a[sn])
        W.take_log()
        W.advance()
        log = W.take_log()
        post = {sn: W.snapshot(sn) for sn in W.names}
        calls = movers.group(log, W)
        sc0 = scales()
        for sn in W.names:
            now = movers.by_uid(post[sn])
            for p in pre[sn]:
                k = (sn, int(p['unique_ID']))
                sh = shadows.get(k)
                if sh is None or not sh.open:
                    continue
                ae = W.ctrl.apply_random_external_electric_field
                use_ext = W.ext is not None and W.kind[sn] == 'charged' and (ae is None or ae[sn])
                t = None if use_ext else W.predict(sn, p)
                x0 = np.array([p[c] for c in W.pos], float)
                E0 = -field(W, W.negE, x0, int(p['cell_index'])) if Eon[sn] else np.zeros(W.geo.g)
                got = calls.get(k, [])
                ev = t['events'] if t is not None else []
                exact = t is not None and not t['delicate'] and [e['facet'] for e in ev[:len(got)]] == [e['facet'] for e in got]
                for i, e in enumerate(got):
                    d = W.pdim
                    R.count('crossing_time_exact', exact)
                    R.count('crossing_after_reflection', exact and any(z['kind'] == 'reflect' for z in ev[:i]))
                    sh.add(kind='crossing', step=W.ctrl.timeloop_count, t=W.ctrl.time - W.ctrl.dt + ev[i]['s'] * W.ctrl.dt if exact else None,
                           tmin=W.ctrl.time - W.ctrl.dt, tmax=W.ctrl.time, x=e['before'][d:2 * d], u=e['before'][2 * d:],
                           E=None if use_ext or case.get('element', ['DG', 0])[1] else E0, X=None if use_ext else np.zeros(W.geo.g))
                    f = e['facet']
                    R.check(abs(np.dot(W.geo.fn[f], e['before'][d:2 * d][:W.geo.g] - W.geo.P[f, 0])) <= sc0['x'] * 10, 'crossing-on-facet', 'crossing point is not on the facet')
                if k[1] not in now:
                    sh.open = False
                    same = last[0] == W.ctrl.timeloop_count
                    # the last place and velocity are those at the deleting call
                    end = (got[-1]['before'][:W.pdim], got[-1]['before'][2 * W.pdim:]) if got and W.fns[got[-1]['fn']] == 'absorb' and (
                        W.geo.exterior[got[-1]['facet']]) else (None, None)
                    R.count('removal_place_compared', end[0] is not None)
                    R.count('removed_in_full', len(sh.points) == sh.cap)
                    sh.add(kind='removal', step=W.ctrl.timeloop_count + same, t=W.ctrl.time + same * W.ctrl.dt, x=end[0], u=end[1], E=np.zeros(W.geo.g), X=np.zeros(W.geo.g))
                    R.count('removals')
        if case.get('nsources'):
            pre = {sn: set(int(i) for i in W.snapshot(sn)['unique_ID']) for sn in W.names}
            if case.get('uid500') and step == case.get('uid500_step', 0):
                W.PC.UNIQUE_ID_COUNTER = 500 - int(rng.integers(0, 6))
            fields = W.negE, W.ext
            if rng.random() < 0.4:
                # the caller need not hand over a field
                W.negE = None if rng.random() < 0.7 else W.negE
                W.ext = None if rng.random() < 0.7 else W.ext
            W.fire()
            for sn in W.names:
                for p in W.snapshot(sn):
                    if int(p['unique_ID']) not in pre[sn] and p['bitflags'] & W.PC.TRAJECTORY_FLAG:
                        sh = shadows[sn, int(p['unique_ID'])] = Shadow(cap)
                        x = np.array([p[c] for c in W.pos], float)
                        R.count('source_trajectories')
                        sh.add(kind='birth', step=W.ctrl.timeloop_count, t=W.ctrl.time, x=x, u=np.array([p[c] for c in W.un], float),
                               E=-field(W, W.negE, x, int(p['cell_index'])), X=field(W, W.ext, x, int(p['cell_index'])))
                        R.count('source_without_field', W.negE is None and fields[0] is not None)
            W.negE, W.ext = fields
        if W.ctrl.timeloop_count % skip == 0 and rng.random() < case.get('p_record', 1.0):
            fields = W.negE, W.ext
            if rng.random() < 0.2:
                W.negE = None if rng.random() < 0.7 else W.negE
                W.ext = None if rng.random() < 0.7 else W.ext
            record()
            W.negE, W.ext = fields
            if rng.random() < 0.2:
                record()
        R.count('steps')
        compare(W, R, shadows, scales(), step + 1)
        R.sig(*movers.signature(case, W, (min(len(log), 4), sum(not s.open for s in shadows.values()), min(len(shadows), 4), case['extra'], case.get('max_points'))))
        if R.viol:
            return
    record()
    compare(W, R, shadows, scales(), case['steps'])
