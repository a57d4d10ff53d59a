from plans import Plan
import moverplan as M

FAULTS = ['coordinates', 'no-coordinates', 'no-engine', 'distribution', 'mesh-coordinates', 'no-mesh', 'no-output-file', 'attribute', 'trajectory-files', 'dynamics',
          'no-list', 'empty-region']


def cases(tier, rng):
    k = 1 if tier == 'quick' else 12
    out = []
    for c in M.cases(400 * k, rng, steps=(1,)):
        c.update(what='limit', n=rng.choice([1, 2, 5]), kind='limit-' + c['kind'], exact=False)
        if rng.random() < 0.3 and not c.get('mesh'):
            c['mesh'] = 'medium'
            c['speeds'] = [0, .05, .2, .3, .35, .1]
        c['vmon'] = 1
        out.append(c)
    for c in M.cases(240 * k, rng, steps=(1,), lowdim=0):
        c.update(what='nofunction', n=rng.choice([1, 2, 5]), kind='nofunction-' + c['kind'], exact=False, bc='mixed', speeds=[0, .1, .2, .3, .3, .1])
        out.append(c)
    for i, c in enumerate(M.cases(30 * len(FAULTS) * k, rng, steps=(1,), lowdim=0)):
        c.update(what='config', fault=FAULTS[i // 15 % len(FAULTS)], n=2, exact=False)
        c['kind'] = 'config-' + c['fault']
        out.append(c)
    return out


PLAN = Plan('C20', modules=M.MODULES + M.VMON, cases=cases,
            required=dict({'refusals_expected': 600, 'acceptances_expected': 700, 'exact_limits': 150, 'one_too_many': 150, 'missing_functions': 120},
                          **{'faults_' + f: 15 for f in FAULTS}),
            rule='valid worlds (both engines, all coordinate systems, meshes up to thousands of cells) with one fault put in: a limit on facet crossings at, above and below the number the '
                 'particles need; a boundary without a function; one incomplete or unknown input. Each is tried with and without the fault; where the compiled modules end the process, in a process of its own; distinct by '
                 '(fault, engine, coordinates, species, limit against need)',
            assumptions=['an error is an exception, or the end of the process with a non-zero status (the way the compiled movers report)',
                         'where the path of a particle is too close to an edge of the mesh to count its crossings, nothing is judged'])
