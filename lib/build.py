"""Builds the simulation variants of /repo's working tree into /verif/build.

Objects are cached by content: an object is reused only when the compiler command
and the contents of every file it read (from the depfile) are unchanged, so an
edit in /repo is always seen, whatever its timestamps say."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
VENV = '/opt/gfft/venv'
PY = VENV + '/bin/python'
SITE = VENV + '/lib/python3.12/site-packages'
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


_hashes = {}


def fhash(path):
    try:
        if path not in _hashes:
            with open(path, 'rb') as f:
                _hashes[path] = hashlib.sha1(f.read()).hexdigest()
        return _hashes[path]
    except OSError:
        return None


def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode('utf-8', 'replace')[-6000:])
    return p.stdout


def compile_one(variant, compiler, flags, src):
    d = os.path.join(OUT, variant, 'obj')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, hashlib.sha1(src.encode()).hexdigest()[:12] + '_' + os.path.basename(src))
    obj, dep, meta = base + '.o', base + '.d', base + '.json'
    cmd = [compiler] + flags + ['-c', src, '-o', obj, '-MD', '-MF', dep]
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['cmd'] == cmd and os.path.exists(obj) and all(fhash(k) == v for k, v in m['deps'].items()):
            return obj, m['deps']
    except (OSError, ValueError, KeyError):
        pass
    for p in (obj, meta):
        if os.path.exists(p):
            os.unlink(p)
    run(cmd)
    with open(dep) as f:
        txt = f.read().replace('\\\n', ' ')
    files = txt.split(':', 1)[1].split()
    deps = {os.path.abspath(x): fhash(os.path.abspath(x)) for x in files}
    with open(meta, 'w') as f:
        json.dump({'cmd': cmd, 'deps': deps}, f)
    return obj, deps


def compile_all(variant, jobs):
    """jobs: list of (compiler, flags, src); returns objects in order"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [o for o, _ in ex.map(lambda j: compile_one(variant, *j), jobs)]


def link(out, cmd, objs):
    key = hashlib.sha1(json.dumps([cmd] + [fhash_obj(o) for o in objs]).encode()).hexdigest()
    stamp = out + '.stamp'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    if os.path.exists(stamp):
        os.unlink(stamp)
    run(cmd)
    with open(stamp, 'w') as f:
        f.write(key)
    return out


def fhash_obj(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


# ---------------------------------------------------------------- the Python extension

EXT_INC = ['-isystem', '/usr/include/python3.12', '-isystem', VENV + '/include/fftw',
           '-isystem', SITE + '/pybind11/include']
EXT_DEF = ['-DACCELERATE_LAPACK_ILP64="1"', '-DACCELERATE_NEW_LAPACK="1"', '-DFLENS_FIRST_INDEX="0"',
           '-DGAUSSIANFFT_STATIC_DEFINE', '-DVECLIB', '-Dgaussianfft_gaussianfft_EXPORTS']
EXT_FLAGS = ['-std=gnu++17', '-O2', '-DNDEBUG', '-fPIC', '-fvisibility=hidden',
             '-fvisibility-inlines-hidden', '-w', '-I', REPO + '/src'] + EXT_DEF + EXT_INC
FFTW_PLANS = ['fftw_plan_dft_%s_%s' % (k, n) for k in ('r2c', 'c2r') for n in ('1d', '2d', '3d')] + \
             ['fftw_plan_dft_r2c', 'fftw_plan_dft_c2r', 'fftw_plan_dft_1d', 'fftw_plan_dft_2d',
              'fftw_plan_dft_3d', 'fftw_plan_dft']
MKL = ['-L' + VENV + '/lib', '-Wl,--start-group', '-lmkl_intel_ilp64', '-lmkl_sequential',
       '-lmkl_core', '-Wl,--end-group', '-lpthread', '-lm', '-ldl']


def ext_sources(variant, compiler, flags):
    """The extension's sources: gaussfftinterface.cpp and, as the project's own build
    does, the .cpp beside every project header reached from it."""
    todo, seen, objs = [REPO + '/src/gaussfftinterface.cpp', REPO + '/src/gaussfft.cpp'], [], []
    src_root = os.path.abspath(REPO + '/src') + '/'
    with cf.ThreadPoolExecutor(JOBS) as ex:
        while todo:
            seen += todo
            res = list(ex.map(lambda s: compile_one(variant, compiler, flags, s), todo))
            objs += [o for o, _ in res]
            nxt = set()
            for _, deps in res:
                for d in deps:
                    if d.startswith(src_root):
                        for e in ('.cpp', '.cc'):
                            c = os.path.splitext(d)[0] + e
                            if os.path.exists(c) and c not in seen:
                                nxt.add(c)
            todo = sorted(nxt)
    return objs


def soabi():
    return 'cpython-312-x86_64-linux-gnu'


def build_ref():
    d = os.path.join(OUT, 'core')
    os.makedirs(d, exist_ok=True)
    o = compile_all('core', [('g++', ['-O2', '-fPIC', '-std=gnu++17'], VERIF + '/core/ref_rng.cpp')])
    out = d + '/libref.so'
    return link(out, ['g++', '-shared', '-o', out] + o, o)


def build_core():
    """real extension + allocator/clock/FFT-library seams"""
    d = os.path.join(OUT, 'core')
    os.makedirs(d, exist_ok=True)
    rt = compile_all('core', [('g++', ['-O2', '-fPIC', '-std=gnu++17'], VERIF + '/core/simrt.cpp'),
                              ('g++', ['-O2', '-fPIC', '-std=gnu++17'], VERIF + '/core/simwrap.cpp')])
    simrt = d + '/libsimrt.so'
    link(simrt, ['g++', '-shared', '-o', simrt, rt[0], '-ldl', '-lpthread'], rt[:1])
    objs = ext_sources('core', 'g++', EXT_FLAGS) + rt[1:]
    wraps = ['-Wl,--wrap=' + s for s in FFTW_PLANS + ['fftw_malloc', 'fftw_free', 'fftw_destroy_plan']]
    out = d + '/_gaussianfft.%s.so' % soabi()
    link(out, ['g++', '-shared', '-fPIC', '-o', out] + objs + wraps + MKL + ['-L' + d, '-lsimrt', '-Wl,-rpath,' + d], objs)
    build_ref()
    return d


SYNC = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock',
        'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'pthread_cond_wait', 'pthread_once',
        '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort',
        'time', 'gettimeofday', 'clock_gettime', 'clock', '_ZNSt6chrono3_V212system_clock3nowEv',
        '_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt13random_device9_M_getvalEv', 'getrandom', 'getentropy']


def build_sched():
    """real extension compiled with memory-access hooks as scheduling points"""
    d = os.path.join(OUT, 'sched')
    os.makedirs(d, exist_ok=True)
    flags = EXT_FLAGS + ['-fsanitize=thread']
    flags = ['-O1' if f == '-O2' else f for f in flags] + ['-fno-inline']
    rt = compile_all('sched', [('g++', ['-O2', '-fPIC', '-std=gnu++17', '-isystem', '/usr/include/python3.12'],
                                VERIF + '/sched/schedrt.cpp')])
    simrt = d + '/libschedrt.so'
    link(simrt, ['g++', '-shared', '-o', simrt, rt[0], '-ldl', '-lpthread'], rt)
    objs = ext_sources('sched', 'clang++', flags)
    out = d + '/_gaussianfft.%s.so' % soabi()
    wraps = ['-Wl,--wrap=' + s for s in SYNC]
    link(out, ['g++', '-shared', '-fPIC', '-o', out] + objs + wraps + MKL + ['-L' + d, '-lschedrt', '-Wl,-rpath,' + d], objs)
    symbols(out, d + '/functions.json')
    build_ref()
    return d


def symbols(so, dest):
    """address ranges of functions: 1 = the library's own code, 2 = pybind11, 0 = as its caller"""
    tab = {}
    for line in run(['nm', '-S', '--defined-only', so]).decode().splitlines():
        f = line.split()
        if len(f) != 4 or f[2] not in 'tTwW':
            continue
        a, n, name = int(f[0], 16), int(f[1], 16), f[3]
        if re.match(r'_ZZL?\d+pybind11_init\w*ENKUl\w*E\d*_cl', name):
            c = 1                     # a lambda bound in the module definition
        elif 'pybind11' in name:
            c = 2
        elif re.match(r'_ZNK?(St|Sa|Ss|9__gnu_cxx)|_ZSt|_Zn|_Zd|_ZStl|__', name):
            c = 0
        elif name.startswith('PyInit') or 'mkl' in name or 'MKL' in name or name.startswith(('fftw', 'dfti', 'Dfti')):
            c = 2
        else:
            c = 1
        tab[a] = (a, a + n, c)
    with open(dest, 'w') as f:
        json.dump([tab[a] for a in sorted(tab)], f)


# ---------------------------------------------------------------- nrlib natively

NR_FLAGS = ['-std=gnu++17', '-O1', '-g', '-fPIC', '-w', '-fno-omit-frame-pointer', '-I', REPO + '/src', '-I', REPO + '/src/nrlib',
            '-DHAS_BOOST_FILESYSTEM', '-DUSE_BOOST', '-DFLENS_FIRST_INDEX=0',
            '-DNDEBUG', '-fsanitize=address', '-ftrivial-auto-var-init=pattern']


def nrlib_sources():
    out = []
    for root, dirs, files in os.walk(REPO + '/src/nrlib'):
        dirs[:] = sorted(x for x in dirs if x not in ('unittests', 'backup', 'experimentation'))
        out += [os.path.join(root, f) for f in sorted(files)
                if f.endswith(('.cpp', '.cc')) and f != 'pchheader.cpp']
    fl = REPO + '/src/flens'
    out += [os.path.join(fl, f) for f in sorted(os.listdir(fl)) if f.endswith('.cc')]
    return out


def build_disk():
    """all of nrlib + the simulated-disk harness, one executable"""
    d = os.path.join(OUT, 'disk')
    os.makedirs(d, exist_ok=True)
    mine = sorted(os.path.join(VERIF, 'disk', f) for f in os.listdir(VERIF + '/disk') if f.endswith('.cpp'))
    jobs = [('g++', NR_FLAGS + ['-I', VERIF + '/disk'], s) for s in mine] + \
           [('g++', NR_FLAGS, s) for s in nrlib_sources()]
    objs = compile_all('disk', jobs)
    out = d + '/disksim'
    libs = ['-lboost_filesystem', '-lboost_system', '-lfftw3', '-lfftw3f', '-lopenblas', '-llapacke', '-lpthread', '-ldl']
    link(out, ['g++', '-rdynamic', '-fsanitize=address', '-o', out] + objs + libs, objs)
    return out


if __name__ == '__main__':
    import time
    for what in sys.argv[1:] or ['core', 'sched', 'disk']:
        t = time.time()
        print(what, globals()['build_' + what](), '%.1fs' % (time.time() - t))
