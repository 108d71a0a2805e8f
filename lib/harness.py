"""The three simulators and what each property asks of them."""
import build
import pkg


class Core:
    name = 'core'
    level = 'exploration'
    props = ('C01', 'C02', 'C04', 'C05')
    real = ['the gaussianfft Python package', 'the _gaussianfft extension: every C++ source of /repo it is made of',
            'pybind11, NumPy, CPython 3.12', "Intel MKL's FFTW interface (sequential layer)", 'process creation, fork and kill (Linux)']
    stubs = ['clock (time, gettimeofday, clock_gettime, clock): simulated time',
             'entropy (getrandom, getentropy, random_device): seeded stream',
             'C++ heap: real memory behind operator new/delete that fails on command and hands out dirty blocks',
             'FFT buffer allocation and FFT plan creation: real, failing on command']

    @staticmethod
    def technique(prop):
        return {'C01': 'seeded histories of calls, crashes, restarts and forks over processes with simulated clock and dirty heap, refinement against a reference model',
                'C02': 'seeded clock histories (ticks, jumps, skew) and process starts, crashes and forks, checked against a reference model',
                'C04': 'seeded allocation and FFT-plan failures inside seeded call histories, checked against a reference model',
                'C05': 'seeded repetition of calls with and without injected failures, conservation of live memory'}[prop]

    @staticmethod
    def level_note(prop):
        return ('Seeded random search, no exhaustiveness. Runs the real package and extension; trusts the reference model in core/ '
                '(written from the documentation and published algorithms), Intel MKL, CPython and NumPy. Every run is replayable; '
                'a sample of runs is executed twice and must repeat exactly.')

    @staticmethod
    def prepare():
        d = build.build_core()
        p = pkg.make(d)
        return ([build.PY, build.VERIF + '/core/runner.py'], {'LD_PRELOAD': d + '/libsimrt.so', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'},
                {'VERIF_BUILD': d, 'VERIF_PKG': p})

    @staticmethod
    def plan(prop, tier):
        runs = {'C01': 18000, 'C02': 24000, 'C04': 20000, 'C05': 7000}[prop]
        must = {'C01': ['fields_checked', 'op_seed', 'fault_fork', 'fault_crash', 'fault_dirty_heap', 'op_bad'],
                'C02': ['auto_seeded', 'auto_seed_same_second', 'fault_crash', 'fault_clock_back', 'fault_clock_forward'],
                'C04': ['fault_fail_new', 'fault_fail_fftmem', 'fault_fail_plan', 'faulted_calls', 'fields_checked'],
                'C05': ['op_sim', 'fault_fail_new', 'fault_fail_fftmem', 'faulted_calls']}[prop]
        if tier == 'quick':
            return {'runs': runs, 'budget': 150, 'recheck': 50, 'must': must}
        return {'runs': 10 ** 9, 'budget': 3000, 'recheck': 100, 'must': must}

    @staticmethod
    def rule(prop):
        return ('one evaluation = one simulated run: a seeded trace of process starts, crashes, forks, clock changes and module calls '
                'with injected faults, executed on the real module and compared with the reference model; distinct and '
                'non-trivial = different (generator state, grid, variogram, padding) combinations at which a simulated field '
                'was produced and compared')

    @staticmethod
    def assumptions(prop):
        return ['the reference model (core/refmodel.py, core/ref_rng.cpp) states the documented algorithm',
                'the FFT library computes transforms to double precision',
                'nothing in the module reads a source of nondeterminism other than those listed as stubbed '
                '(one run in 50 is executed twice and must give identical bytes)']

    @staticmethod
    def extra_coverage(stats):
        return {'simulated_seconds_covered': stats.get('simulated_seconds', 0)}


class Sched:
    name = 'sched'
    level = 'exploration'
    props = ('C03',)
    real = ['the gaussianfft Python package', 'the _gaussianfft extension: every C++ source of /repo it is made of, every memory access instrumented',
            'CPython 3.12 threads', "Intel MKL's FFTW interface (sequential layer; not preempted inside)"]
    stubs = ['thread scheduler: one seeded decision at each memory access, atomic operation and lock of the library',
             'interpreter lock: given up by a preempted thread, as on a free-threaded interpreter',
             'clock and entropy of the extension: simulated time that advances with the scheduler steps, seeded stream',
             'mutexes, rwlocks, once-flags and function-local statics: block in the simulator instead of the kernel']

    @staticmethod
    def technique(prop):
        return 'seeded thread schedules with preemption at every memory access of the library, linearizability against a reference model'

    @staticmethod
    def level_note(prop):
        return ('Seeded random search over schedules of 2 to 4 threads, no exhaustiveness. Sequentially consistent interleavings only; '
                'pybind11, NumPy and MKL are trusted to be thread-safe and are not preempted inside; trusts the reference model in core/.')

    @staticmethod
    def prepare():
        d = build.build_sched()
        p = pkg.make(d)
        return ([build.PY, build.VERIF + '/sched/runner.py'], {}, {'VERIF_BUILD': d, 'VERIF_PKG': p})

    @staticmethod
    def plan(prop, tier):
        must = ['fault_preemption', 'overlapping_call_pairs', 'fault_lock_contention', 'static_accesses']
        if tier == 'quick':
            return {'runs': 40000, 'budget': 150, 'recheck': 100, 'must': ['fault_preemption', 'overlapping_call_pairs']}
        return {'runs': 10 ** 9, 'budget': 3000, 'recheck': 100, 'must': must}

    @staticmethod
    def rule(prop):
        return ('one evaluation = one simulated run of 2 to 4 threads with their own calls under one seeded schedule; distinct and '
                'non-trivial = different (calls, switch sequence) pairs with at least one preemption inside the library')

    @staticmethod
    def assumptions(prop):
        return ['memory accesses are atomic at instruction level and sequentially consistent (no weak-memory reordering)',
                'pybind11, NumPy and MKL are thread-safe by themselves and are not preempted inside',
                'the reference model (core/refmodel.py) states the sequential behaviour']

    @staticmethod
    def extra_coverage(stats):
        return {'simulated_steps': stats.get('simulated_steps', 0)}


class Disk:
    name = 'disk'
    level = 'exploration'
    props = ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12')
    real = ['all of nrlib (surfaces, volumes, STORM, SGRI, SEG-Y and Eclipse grids, wells, point sets, wavelets, XML, tables, trends, kriging data, matrices, seed file, log), '
            'every byte it reads and writes', 'libstdc++ streams and C stdio', 'boost::filesystem']
    stubs = ['disk: open, read, write, writev, close and the C streams over them are interposed and decide from the seed which call '
             'fails, is cut short, is interrupted, or is the last one before the process dies', 'memory: operator new fails at a chosen allocation of an operation',
             'process: every life is a fresh process whose memory is lost at a crash; only the bytes the simulated disk accepted survive']

    @staticmethod
    def technique(prop):
        return {'C10': 'seeded histories of drawing and checkpointing with crashes and disk faults, checked against a model of the generator and of the seed file',
                'C11': 'seeded histories of log configuration, messages, crashes and disk faults, checked against a model of the log'}.get(
            prop, 'seeded histories of saves, loads, crashes and disk faults over a simulated disk, checked against the objects saved')

    @staticmethod
    def level_note(prop):
        return ('Seeded random search, no exhaustiveness. Lost or torn data is modelled as a lost tail (what reached the disk is a prefix of what '
                'was written); no bit rot, no reordering of blocks within a file. Memory errors are noticed by AddressSanitizer.')

    @staticmethod
    def prepare():
        exe = build.build_disk()
        return ([build.PY, build.VERIF + '/disk/runner.py'], {}, {'VERIF_DISKSIM': exe})

    @staticmethod
    def plan(prop, tier):
        must = {'C06': ['fault_wfail', 'fault_cfail', 'fault_ofail', 'fault_crash', 'fault_shortw', 'fault_nomem', 'fault_libmem'],
                'C10': ['fault_wfail', 'fault_crash', 'fault_rfail', 'fault_kill'],
                'C11': ['fault_wfail', 'fault_crash', 'fault_ofail', 'fault_kill']}.get(
            prop, ['fault_rfail', 'fault_truncate', 'fault_crash', 'fault_shortr', 'fault_nomem', 'fault_libmem'])
        if tier == 'quick':
            return {'runs': {'C10': 60000, 'C11': 50000}.get(prop, 20000), 'budget': 110, 'recheck': 50, 'must': must}
        return {'runs': 10 ** 9, 'budget': 3000, 'recheck': 100, 'must': must}

    @staticmethod
    def rule(prop):
        return ('one evaluation = one simulated history of 4 to 30 operations in one or several process lives; distinct and non-trivial = '
                'different (operation, file format, faults that took effect, position, outcome) combinations reached')

    @staticmethod
    def assumptions(prop):
        return ['what reached the disk before a crash or a failed write is a prefix of what was written to that file',
                'the operating system reports a lost write at the write or at the close',
                'one run in 50 is executed twice and must give an identical history']

    @staticmethod
    def extra_coverage(stats):
        return {'simulated_operations': stats.get('operations', 0)}


ALL = [Core, Sched, Disk]


def for_property(prop):
    for h in ALL:
        if prop in h.props:
            return h
    raise SystemExit('no check for property %s' % prop)
