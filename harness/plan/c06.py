from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 5000 if tier == 'quick' else 80000
    out = M.cases(n, rng, steps=(1, 2, 4, 6))
    for c in out:
        c['p_interior'] = rng.choice([0, 0.2, 0.6])
    big = M.large(14 if tier == 'quick' else 48, rng)
    return big + out


PLAN = Plan('C06', modules=M.MODULES + M.VMON, cases=cases,
            required={'calls': 5000, 'call_specific': 800, 'call_boundary-default': 800, 'call_global-default': 500, 'paths_with_calls': 3000, 'paths_with_several_calls': 300},
            rule='random worlds with random tags on exterior and interior facets and random sets of user functions (specific, per boundary, global); every call a user function '
                 'receives is recorded and compared per particle with the marked facets on its path; distinct as for C02; non-trivial when a function is called',
            assumptions=['after a boundary function has deleted a particle, further calls for it are accepted if they follow its path',
                         'exterior facets absorb or reflect; interior marked facets pass or absorb'])
