"""Boundary callbacks: the recorded calls of every particle against the facets its path crosses."""
import numpy as np
import movers


def judge(W, R, step, pre, post, log, pred):
    g = W.geo
    calls = movers.group(log, W)
    known = {(sn, int(p['unique_ID'])) for sn in W.names for p in pre[sn]}
    for k in calls:
        R.check(k in known, 'unknown-particle', lambda: 'a boundary function was called for %r, which is no particle of that species' % (k,))
    for e in log:
        R.count('calls')
        tag = W.tag[e['facet']] if 0 <= e['facet'] < g.nf else 0
        if not R.check(tag != 0, 'unmarked-facet', lambda: 'boundary function %s called for facet %d, which is not marked' % (e['fn'], e['facet'])):
            continue
        want = W.expect.get((W.inv[tag], e['species']))
        level = 'specific' if e['fn'].startswith('bc_at') else 'boundary-default' if e['fn'].startswith('default_bc_at') else 'global-default'
        R.count('call_' + level)
        R.check(e['fn'] == want, 'wrong-function', lambda: 'facet tag %d (%s), species %s: %s was called, expected %s of %r' % (tag, W.inv[tag], e['species'], e['fn'], want, sorted(W.fns)))
        R.check(0 <= e['frac'] <= 1, 'fraction-range', lambda: 'dx_fraction %r' % e['frac'])
        n = e['normal']
        R.check(len(n) == g.g and abs(np.linalg.norm(n) - 1) < 1e-9 and abs(abs(np.dot(n, g.fn[e['facet']])) - 1) < 1e-9, 'normal',
                lambda: 'facet %d normal %r handed over, the facet normal is +-%r' % (e['facet'], n.tolist(), g.fn[e['facet']].tolist()))
        x, x0 = e['before'][:W.pdim], e['before'][W.pdim:2 * W.pdim]
        R.check(abs(np.dot(g.fn[e['facet']], x0[:g.g] - g.P[e['facet'], 0])) <= 1e-8 * (g.L + np.abs(x0).max()), 'not-on-facet',
                lambda: 'the particle is at %r when facet %d at %r is reported crossed' % (x0.tolist(), e['facet'], g.P[e['facet']].tolist()))
        if np.linalg.norm((x - x0)[:g.g]) > 1e-9 * g.L:
            R.check(np.dot(n, (x - x0)[:g.g]) > -1e-9 * g.L, 'normal-direction', lambda: 'normal %r of facet %d does not point along the particle\'s way out' % (n.tolist(), e['facet']))
        R.check(e['cell'] in g.fcells[e['facet']], 'cell-at-call', lambda: 'at the call for facet %d the particle is in cell %d, which does not have that facet' % (e['facet'], e['cell']))
    for sn in W.names:
        for p, t in zip(pre[sn], pred[sn]):
            if t['delicate']:
                continue
            uid = int(p['unique_ID'])
            got = calls.get((sn, uid), [])
            ev = t['events']
            first_dead = next((i + 1 for i, e in enumerate(ev) if e['kind'] == 'absorb'), len(ev))
            R.count('paths_checked')
            R.count('paths_with_calls', bool(ev))
            R.count('paths_with_several_calls', len(ev) > 1)
            if not R.check([e['facet'] for e in got] == [e['facet'] for e in ev[:len(got)]] and len(got) >= first_dead, 'call-sequence',
                           lambda: 'step %d: %s particle %d: boundary calls for facets %r, its path crosses marked facets %r' % (step, sn, uid, [e['facet'] for e in got], [e['facet'] for e in ev])):
                continue
            for e, w in zip(got, ev):
                tol = 1e-8 * (g.L + np.linalg.norm(w['rest']) + np.abs(w['point']).max())
                R.check(abs(e['frac'] - w['frac']) <= 1e-7 * (1 + g.L / (np.linalg.norm(w['rest'][:g.g]) + 1e-300)), 'fraction', lambda: 'facet %d: dx_fraction %r, expected %r' % (e['facet'], e['frac'], w['frac']))
                x0 = e['before'][W.pdim:2 * W.pdim]
                R.check(np.all(np.abs(x0 - w['point']) <= tol), 'crossing-point', lambda: 'facet %d: crossing point %r, expected %r' % (e['facet'], x0.tolist(), w['point'].tolist()))
                R.check(np.all(np.abs(e['before'][:W.pdim] - w['end']) <= tol), 'state-at-call', lambda: 'facet %d: the particle\'s target %r at the call, expected %r' % (e['facet'], e['before'][:W.pdim].tolist(), w['end'].tolist()))
                u = w['R'] @ t['u_kicked']
                R.check(np.all(np.abs(e['before'][2 * W.pdim:] - u) <= 1e-9 * np.linalg.norm(t['u_kicked']) + 1e-300), 'velocity-at-call', lambda: 'velocity %r at the call for facet %d, expected %r' % (e['before'][2 * W.pdim:].tolist(), e['facet'], u.tolist()))
                c = [c for c in g.fcells[e['facet']] if np.dot(g.outward(c, e['facet']), w['direction'][:g.g]) > 0]
                if len(c) == 1:
                    R.check(np.dot(e['normal'], g.outward(c[0], e['facet'])) > 0.999999, 'outward', lambda: 'normal of facet %d does not point out of the cell the particle is leaving' % e['facet'])
                    R.check(e['cell'] == c[0], 'cell-before-leaving', lambda: 'facet %d is left from cell %d, the particle names %d' % (e['facet'], c[0], e['cell']))
                if 'dx' in e:
                    R.check(np.all(np.abs(e['dx'] - w['rest']) <= tol), 'dx', lambda: 'facet %d: displacement %r handed over, expected %r' % (e['facet'], e['dx'].tolist(), w['rest'].tolist()))


def run(case, R):
    movers.run(case, R, judge)
