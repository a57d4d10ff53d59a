from plans import Plan
import moverplan as M


def cases(tier, rng):
    n = 900 if tier == 'quick' else 12000
    out = M.cases(n, rng, steps=(1, 2, 4, 6))
    for c in out:
        c['traj'] = rng.random() < 0.4
        c['small'] = True
    # many writes to one file
    for c in M.cases(10 if tier == 'quick' else 100, rng, steps=(14, 25, 120), lowdim=0):
        c.update(kind='many-' + c['kind'], n=3, exact=False, small=True, traj=False, bc='reflect', p_interior=0, speeds=[.2, .6, .2, 0, 0, 0], many=1)
        out.insert(0, c)
    for c in M.cases(4 if tier == 'quick' else 20, rng, steps=(2,), lowdim=0):
        c.update(kind='crowd-' + c['kind'], n=rng.choice([65536, 66000]), L=rng.choice([1000, 40000, 65536]), species=c['species'][:1], exact=False, small=True, mesh=None,
                 speeds=[.05, .3, .6, .05, 0, 0], traj=False)
        out.insert(0, c)
    return out


PLAN = Plan('C13', modules=M.MODULES + M.VMON, cases=cases,
            required={'writes': 1500, 'second_writes': 200, 'groups_checked': 5000, 'values_checked': 50000, 'further_files': 50, 'empty_species_written': 100,
                      'trajectory_files': 200, 'trajectory_points': 500},
            rule='random worlds (both engines, 1-3 species, segment lengths 1..100) advanced with additions and deletions; random write schedules, attribute selections and several files; '
                 'the bytes on disk are copied and read back after every call; distinct by (engine, coordinates, species, segment length, writes, buffer growth, empty species, files)',
            assumptions=['a second call in the same step writes nothing, as documented in the code', 'HDF5 reading through h5py'])
