"""Runs a World for several steps and hands every observed step to a property's judge."""
import numpy as np
from world import World


def signature(case, W, extra=()):
    return (W.engine, case['coord'], W.geo.g, '+'.join(case['species']), 'L%d' % case['L'], case.get('bc', 'mixed'), case.get('element'),
            case.get('reflect_style')) + tuple(extra)


def scramble(case, W, rng, lst):
    """lists whose cell indices are not yet known, or are stale: locating has to find them"""
    if not case.get('scramble'):
        return lst
    out = []
    for t in lst:
        t = list(t)
        i = len(t) - 3                      # ..., weight, bitflags, cell_index, unique_ID, crossings
        if rng.random() < 0.8:
            t[i] = int(W.pm.NO_CELL) if case['scramble'] == 'none' or rng.random() < 0.3 else int(rng.integers(0, W.geo.nc))
        out.append(tuple(t))
    return out


def run(case, R, judge, created=None, located=None, predict=True):
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 99)
    for sn in W.names:
        n = case['n'] if case['n'] is not None else int(rng.integers(0, 3 * case['L'] + 2))
        if case.get('exact'):
            n = case['L'] * int(rng.integers(1, 4))
        lst = scramble(case, W, rng, W.new_particles(sn, n, rng))
        W.add(sn, lst)
        if created:
            created(W, R, sn, np.zeros(0), lst)
    W.locate()
    if located:
        located(W, R)
    W.take_log()
    fields = None if case.get('no_toggle') else (W.negE, W.ext)
    for step in range(case['steps']):
        if step and rng.random() < case.get('p_add', 0.3):
            sn = W.names[int(rng.integers(0, len(W.names)))]
            have = len(W.snapshot(sn))
            # fill up to a segment boundary about half of the time
            k = (-have) % case['L'] if rng.random() < 0.5 else int(rng.integers(1, case['L'] + 2))
            before = W.snapshot(sn)
            lst = scramble(case, W, rng, W.new_particles(sn, k, rng))
            W.add(sn, lst)
            R.count('particles_added_later', k)
            if created:
                created(W, R, sn, before, lst)
            if case.get('scramble') or rng.random() < 0.5:
                W.locate()
                if located:
                    located(W, R)
        if step and case.get('vary') and rng.random() < 0.6:
            # the user changes the time step, the boundaries' marks
            if rng.random() < 0.5:
                W.ctrl.dt = float(W.ctrl.dt * rng.choice([0.25, 0.5, 2.0]))
                R.count('time_step_changes')
            if rng.random() < 0.6:
                W.remark(rng)
                R.count('boundary_marker_changes')
            if fields and rng.random() < 0.4:
                # this step without one of the fields, or with it again
                W.negE = None if W.negE is not None and rng.random() < 0.6 else fields[0]
                W.ext = None if W.ext is not None and rng.random() < 0.6 else fields[1]
                R.count('fields_given_or_not')
                for a in (W.ctrl.apply_solved_electric_field, W.ctrl.apply_random_external_electric_field):
                    if a is not None:
                        for sn in W.names:
                            a[sn] = bool(rng.random() < 0.5)
                        R.count('switch_changes')
        pre = {sn: W.snapshot(sn) for sn in W.names}
        W.take_log()
        W.advance()
        log = W.take_log()
        post = {sn: W.snapshot(sn) for sn in W.names}
        pred = {sn: [W.predict(sn, p) for p in pre[sn]] for sn in W.names} if predict else None
        R.count('steps')
        R.count('particle_steps', sum(len(a) for a in pre.values()))
        R.count('boundary_calls', len(log))
        if predict:
            for sn in W.names:
                for t in pred[sn]:
                    R.count('delicate_paths', t['delicate'])
                    R.count('facets_crossed', t['crossings'])
                    R.count('multi_reflections', sum(e['kind'] == 'reflect' for e in t['events']) > 1)
        judge(W, R, step, pre, post, log, pred)
        R.sig(*signature(case, W, (min(len(log), 5), sum(len(a) for a in post.values()) % case['L'] == 0)))
    return W


def by_uid(a):
    return {int(p['unique_ID']): p for p in a}


def group(log, W):
    out = {}
    for e in log:
        out.setdefault((e['species'], e['uid']), []).append(e)
    return out


COMBOS = [('py', 'cartesian_x', ['charged']), ('py', 'cartesian_x', ['neutral']), ('py', 'spherical_r', ['charged']),
          ('py', 'cartesian_xy', ['charged', 'neutral']), ('py', 'cartesian_xy', ['charged', 'charged']), ('py', 'cartesian_xy', ['neutral', 'neutral']),
          ('py', 'cartesian_xyz', ['neutral']), ('py', 'cartesian_xyz', ['charged', 'neutral']),
          ('cpp', 'cartesian_x', ['charged', 'charged']), ('cpp', 'spherical_r', ['charged', 'charged', 'charged']),
          ('cpp', 'cartesian_xy', ['charged', 'charged']), ('cpp', 'cartesian_xy', ['neutral']), ('cpp', 'cartesian_xy', ['charged', 'neutral', 'neutral']),
          ('cpp', 'cartesian_xyz', ['neutral']), ('cpp', 'cartesian_xyz', ['neutral', 'neutral'])]
