from plans import Plan, PLANS
import build as B
import moverplan as M

# how many cases of each property's workload are borrowed
QUICK = {'C01': 260, 'C02': 110, 'C03': 110, 'C04': 110, 'C05': 170, 'C06': 60, 'C07': 90, 'C08': 110, 'C09': 120, 'C10': 150, 'C11': 150, 'C14': 60}
CPP = ('cpp', 'C09', 'C10', 'C11')


def cases(tier, rng):
    out = []
    for p, n in QUICK.items():
        n = n if tier == 'quick' else 12 * n
        pool = [c for c in PLANS[p].cases('quick' if tier == 'quick' else 'thorough', rng) if c.get('engine', c.get('impl', 'cpp')) == 'cpp' or p in CPP]
        rng.shuffle(pool)
        for c in pool[:n]:
            out.append(dict(kind=p + '-' + c.get('kind', ''), work=p, sub=c, vmon=c.get('vmon', False), seed=rng.randrange(1 << 30), variant='asan'))
    for i in range(40 if tier == 'quick' else 800):
        out.append(dict(kind='store', work='store', n=15, seed=rng.randrange(1 << 30), variant='asan'))
    for i in range(40 if tier == 'quick' else 800):
        out.append(dict(kind='mesh', work='mesh', n=4, vmon=True, seed=rng.randrange(1 << 30), variant='asan'))
    rng.shuffle(out)
    return out


PLAN = Plan('C16', modules=M.MODULES + M.VMON, cases=cases, variants=['asan'], cpu_limit=240,
            required={'sequences': 1000, 'lifetimes': 500},
            rule='the workloads of the storage, mesh, search, interpolation, deposition, mover, boundary, trajectory and diagnostics properties on the compiled modules, and lifetimes (views, '
                 'stores, meshes, fields and boundary objects discarded in any order), on modules built with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions; '
                 'distinct by what the workload tells apart',
            assumptions=['a sanitizer report ends the process: at most one report per case', 'reads of uninitialised memory are only seen by their effects (no MemorySanitizer build of dolfin)',
                         'dolfin itself is not instrumented'])
