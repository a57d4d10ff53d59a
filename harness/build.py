"""Builds the pybind11 modules from /repo/cpp's current files into /verif/build/<variant>-<hash>/lib.

The directory is keyed by the content of every source and header, of our makefile and of the
monitoring boundary-function module, so a changed tree is always rebuilt and nothing in /repo or
/opt is written.  A module is built only when a check asks for it."""
import fcntl, glob, hashlib, os, shutil, subprocess, sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
CPP = os.path.join(REPO, 'cpp')
BUILD = os.path.join(VERIF, 'build')
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'

BF = 'user_particle_boundary_functions'
ALL = ['dolfin_functions_solib', 'mesh_entity_arrays_solib', 'numpy_types_solib',
       'segmented_array_pair_solib', BF + '_cartesian_x_solib', BF + '_cartesian_xy_solib',
       BF + '_cartesian_xyz_solib', BF + '_2D_e_cartesian_xy_solib', 'upbfs_spherical_r_solib',
       'particle_cartesian_x_solib', 'particle_cartesian_xy_solib', 'particle_cartesian_xyz_solib',
       'particle_spherical_r_solib']
MON = ['vmon_cartesian_x_solib', 'vmon_cartesian_xy_solib', 'vmon_cartesian_xyz_solib', 'vmon_spherical_r_solib']


class BuildError(Exception):
    pass


def _sources():
    return sorted(glob.glob(CPP + '/*.cpp') + glob.glob(CPP + '/*.h'))


def tree_hash(variant):
    h = hashlib.sha256(variant.encode())
    for f in _sources() + [os.path.join(HERE, 'solibs.mk'), os.path.join(HERE, 'vmon.cpp')]:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fp:
            h.update(fp.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def build(modules, variant='plain', jobs=8):
    """Returns (library directory, list of monitoring modules that could not be built)."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s-%s' % (variant, tree_hash(variant)))
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # keep the disk small: drop other trees of this variant
        for o in glob.glob(os.path.join(BUILD, variant + '-*')):
            if o != d:
                shutil.rmtree(o, ignore_errors=True)
        src, lib = os.path.join(d, 'src'), os.path.join(d, 'lib')
        if not os.path.isdir(lib):
            os.makedirs(src, exist_ok=True)
            os.makedirs(lib, exist_ok=True)
            for f in _sources():
                shutil.copy(f, src)
            shutil.copy(os.path.join(HERE, 'vmon.cpp'), src)
        need = [m for m in modules if not os.path.exists(os.path.join(lib, m + SUFFIX))]
        missing = []
        if need:
            env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'MAKEFLAGS')}
            p = subprocess.run(['make', '-k', '-s', '-j%d' % jobs, 'VARIANT=' + variant, '-f',
                                os.path.join(HERE, 'solibs.mk')] + [m + '.so' for m in need],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for m in need:
                so = os.path.join(d, m + '.so')
                if os.path.exists(so):
                    shutil.copy(so, os.path.join(lib, m + SUFFIX))
                elif m in MON:
                    missing.append(m)
                else:
                    raise BuildError('module %s of /repo/cpp does not build:\n%s' % (m, p.stdout[-4000:]))
    return lib, missing


if __name__ == '__main__':
    import sys
    for v in (sys.argv[1:] or ['plain', 'asan']):
        print(v, build(ALL + MON, v))
