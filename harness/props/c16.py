"""The native modules under AddressSanitizer and UndefinedBehaviorSanitizer.

The verdict is the sanitizers' (they end the process) or an abort of the process.  What the calls
return is judged by the other properties: their verdicts are not repeated here."""
import gc
import importlib
import numpy as np


class Quiet:
    """records what a borrowed workload reached, without its verdicts"""
    def __init__(self, R, name):
        self.R, self.name, self.case, self.tier, self.sample = R, name, R.case, R.tier, None
        self.viol = []

    def count(self, name, n=1):
        if name not in ('assertions', 'violations'):
            self.R.count(self.name + ':' + name, n)

    def sig(self, *p):
        self.R.sig(self.name, *p)

    def violation(self, *a, **k):
        pass

    def check(self, ok, *a, **k):
        return ok


def sig(R, *p):
    R.sig(*p)


def touch(a):
    """read all of an array, and write it back"""
    if isinstance(a, np.ndarray):
        b = bytes(a.tobytes())
        if a.flags.writeable:
            a[:] = np.frombuffer(b, dtype=a.dtype).reshape(a.shape)
        return len(b)
    return 0


def shuffled_end(rng, objs):
    """let go of the objects in a random order, using what is left in between"""
    ks = list(objs)
    rng.shuffle(ks)
    for k in ks:
        objs.pop(k)
        if rng.random() < 0.5:
            gc.collect()
        # allocations of the same sizes: freed memory does not stay as it was
        trash = [np.full(int(rng.integers(1, 400)), 7.0) for _ in range(4)]
        for v in list(objs.values()):
            use(v)
        del trash


def use(v):
    if isinstance(v, np.ndarray):
        touch(v)
    elif callable(v):
        v()


def life_store(R, rng):
    """segments handed out by a store, and the store, discarded in any order"""
    import segmented_array_pair_solib as S
    import numpy_types_solib  # noqa
    pt = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][int(rng.integers(0, 4))]
    pd = {'cartesian_x': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3, 'spherical_r': 1}[pt]
    L = int(rng.choice([1, 2, 3, 8]))
    s = getattr(S, 'SegmentedArrayPair_' + pt)(L)
    n = int(rng.choice([0, 1, L, 2 * L, 3 * L + 1]))
    rec = lambda i: tuple([float(i)] * (3 * pd)) + (1.0, 0, 0, i, 0)
    objs = {}
    for i in range(n):
        s.push_back(rec(i))
    for j in range(int(rng.integers(1, 4))):
        if n:
            objs['seg%d' % j] = s.get_segment_and_offset(int(rng.integers(0, n)))[0]
    objs['in'] = s.init_out_loop()[1]
    objs['next'] = s.get_next_segment('out')[1]
    t = s.init_inout_loop()
    objs['i'], objs['o'] = t[1], t[2] if len(t) > 2 else None
    objs = {k: v for k, v in objs.items() if v is not None}
    # more segments while views are held
    for i in range(int(rng.integers(0, 4 * L))):
        s.push_back(rec(n + i))
    objs['store'] = lambda s=s: (s.get_number_of_items(), s.get_capacity(), s.init_out_loop())
    del s, t
    shuffled_end(rng, objs)
    R.count('lifetimes')
    R.sig('store', pt, L, n)


def life_mesh(R, rng):
    """mesh tables, mesh, boundary conditions and the user's functions, discarded in any order"""
    from world import World
    import moverplan as M
    import random
    case = M.cases(1, random.Random(int(rng.integers(0, 1 << 30))), steps=(2,), engines=('cpp',), small=True)[0]
    W = World(case)
    for sn in W.names:
        W.add(sn, W.new_particles(sn, int(rng.integers(0, 2 * min(case['L'], 8) + 2)), rng))
    W.locate()
    W.advance()
    P = W.P
    objs = {'P': lambda P=P: [P.get_species_KE(s) for s in P.species_names]}
    objs['pmesh'] = lambda m=W.pm: (m.mesh.num_cells(), touch(m.mesh.coordinates()))
    objs['coords'] = W.pm.mesh.coordinates()
    if W.negE is not None:
        objs['E'] = lambda F=W.negE: F.function.vector().norm('l2')
        objs['vals'] = W.negE.function_values
        W.negE = None
    if getattr(P, 'pmesh_bcs', None) is not None:
        objs['bcs'] = P.pmesh_bcs
    objs['upbf'] = getattr(W, 'upbf', None)
    mea = getattr(W.pm, 'mea_object', None)
    if mea is not None:
        objs['mea'] = mea
    objs = {k: v for k, v in objs.items() if v is not None}
    ctrl, mode = W.ctrl, int(rng.integers(0, 3))
    if mode == 0:
        # go on after everything but the particle object has been let go
        W.pm = W.upbf = W.geo = None
        objs.pop('pmesh'), objs.pop('upbf', None), objs.pop('bcs', None), objs.pop('mea', None)
        gc.collect()
        trash = [np.full(int(rng.integers(1, 4000)), 3.0) for _ in range(50)]
        W.negE = None
        if all(k == 'neutral' for k in case['species']):
            ctrl.timeloop_count += 1
            P.advance_neutral_particles(ctrl)
            R.count('advances_after_discarding')
        del trash
    del W, P, mea
    shuffled_end(rng, objs)
    R.count('lifetimes')
    R.sig('mesh', case['coord'], mode)


def run(case, R):
    rng = np.random.default_rng(case['seed'])
    k = case['work']
    if k == 'store':
        for _ in range(case['n']):
            life_store(R, rng)
    elif k == 'mesh':
        for _ in range(case['n']):
            life_mesh(R, rng)
    else:
        sub = importlib.import_module('props.' + k.lower())
        R.case = case['sub']
        q = Quiet(R, k)
        try:
            sub.run(case['sub'], q)
        except (Exception, SystemExit):
            q.count('ended_by_exception')
        finally:
            R.case = case
    R.count('assertions')
    R.count('sequences')
