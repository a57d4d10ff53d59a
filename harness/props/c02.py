"""Conservation: an exactly-once checker over the identities seen before and after every advance."""
import numpy as np
import movers


def created(W, R, sn, before, lst):
    after = W.snapshot(sn)
    n0 = len(before)
    R.check(len(after) == n0 + len(lst), 'create-count', lambda: '%d particles listed for %s, store grew from %d to %d' % (len(lst), sn, n0, len(after)))
    if n0 and len(after) >= n0:
        R.check(all(after[:n0][k].tolist() == before[k].tolist() for k in before.dtype.names), 'create-disturbs', 'adding particles changed the existing ones')
    for p, l in zip(after[n0:], lst):
        R.check(int(p['unique_ID']) == l[-2] and float(p['weight']) == l[3 * W.pdim] and int(p['bitflags']) == l[3 * W.pdim + 1], 'create-content',
                lambda: 'listed particle %r stored as %r' % (l, p))
    R.check(W.counts(sn) == (len(after), len(after)), 'count', lambda: 'counts %r, %d particles enumerated' % (W.counts(sn), len(after)))


def judge(W, R, step, pre, post, log, pred):
    dead = {(e['species'], e['uid']) for e in log if W.fns[e['fn']] == 'absorb'}
    total = 0
    for sn in W.names:
        a, b = pre[sn], post[sn]
        ids = [int(i) for i in a['unique_ID']]
        want = [i for i in ids if (sn, i) not in dead]
        got = [int(i) for i in b['unique_ID']]
        R.count('deleted', len(ids) - len(want))
        R.count('survivors', len(want))
        R.count('all_deleted', bool(ids) and not want)
        R.count('exactly_full', len(want) > 0 and len(want) % W.case['L'] == 0)
        R.count('segments_compacted', len(ids) > W.case['L'] and len(want) < len(ids))
        if not R.check(got == want, 'identity:' + ('lost' if len(got) < len(want) else 'extra' if len(got) > len(want) else 'order'),
                       lambda: 'step %d species %s: particles after the advance %r, expected %r (deleted by boundary functions: %r)' % (
                           step, sn, got[:40], want[:40], sorted(i for s, i in dead if s == sn)[:40])):
            continue
        ref = movers.by_uid(a)
        for p in b:
            q = ref[int(p['unique_ID'])]
            R.check(float(p['weight']) == float(q['weight']), 'weight', lambda: 'weight of particle %d changed from %r to %r' % (p['unique_ID'], q['weight'], p['weight']))
            R.check(int(p['bitflags']) == int(q['bitflags']), 'bitflags', lambda: 'flags of particle %d changed from %r to %r' % (p['unique_ID'], q['bitflags'], p['bitflags']))
        c = W.counts(sn)
        R.check(c == (len(b), len(b)), 'count', lambda: 'step %d %s: reported counts %r, %d particles can be enumerated' % (step, sn, c, len(b)))
        total += len(b)
    R.check(int(W.P.get_total_particle_count()) == total, 'total-count', 'the total particle count is not the sum over species')


def uniform(case, R):
    """the mover for prescribed uniform fields"""
    from world import World
    W = World(case)
    rng = np.random.default_rng(case['seed'] + 5)
    sn = W.names[0]

    class E0:
        x, y, z = [float(v) for v in rng.normal(0, 1, 3)]
    W.ctrl.E0 = E0
    W.add(sn, W.new_particles(sn, case['nu'], rng))
    for step in range(case['steps']):
        a = W.snapshot(sn)
        if case['engine'] == 'py':
            W.P.advance_charged_species_in_uniform_fields(sn, W.ctrl)
        else:
            W.P.particle_solib.advance_charged_species_in_uniform_fields(W.P, sn, W.ctrl)
        b = W.snapshot(sn)
        R.count('uniform_steps')
        R.count('uniform_exactly_full', len(a) % case['L'] == 0 and len(a) > 0)
        R.check(a['unique_ID'].tolist() == b['unique_ID'].tolist(), 'uniform-identity', lambda: 'uniform-field mover: %r became %r' % (a['unique_ID'].tolist()[:30], b['unique_ID'].tolist()[:30]))
        if len(a) == len(b):
            R.check(a['weight'].tolist() == b['weight'].tolist() and a['bitflags'].tolist() == b['bitflags'].tolist(), 'uniform-content', 'uniform-field mover changed weights or flags')
        R.check(W.counts(sn) == (len(b), len(b)), 'count', 'uniform-field mover: reported counts differ from what can be enumerated')
        if rng.random() < 0.5:
            W.add(sn, W.new_particles(sn, int(rng.integers(1, 4)), rng))


def run(case, R):
    if case.get('uniform'):
        return uniform(case, R)
    movers.run(case, R, judge, created=created, predict=False)
