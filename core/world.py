"""Deterministic simulation of gaussianfft's Python module.

A run is an explicit list of events (the trace), generated from one PRNG before
anything executes.  The "nodes" are processes that import the real extension; each
is a fork of a clean parent that has imported but never used it.  The simulator
executes one event at a time and owns every input the module could depend on
besides its arguments: the clock, entropy, heap contents, allocation and FFT-plan
failures, process crash, restart and fork.  The oracle is refmodel.Model."""
import array
import ctypes
import gc
import hashlib
import math
import os
import pickle
import select
import signal
import struct
import sys

import numpy as np

import refmodel as R

FIELDS = ['in_op', 'fail_at', 'fail_len', 'kinds', 'fired', 'points', 'fill_mode', 'fill_state',
          'clock_on', 'clock_sec', 'clock_nsec', 'clock_reads', 'clock_step_ns', 'entropy_state',
          'entropy_reads', 'new_blocks', 'new_bytes', 'fft_blocks', 'fft_bytes', 'plans',
          'new_calls', 'fft_calls', 'plan_calls', 'kf0', 'kf1', 'kf2', 'pid']


class Ctl(ctypes.Structure):
    _fields_ = [(f, ctypes.c_uint64 if f in ('fill_state', 'entropy_state') else ctypes.c_int64) for f in FIELDS]


class MallInfo(ctypes.Structure):
    _fields_ = [(f, ctypes.c_size_t) for f in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
                                               'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


WATCHDOG_S = 120
ctl = None
gfft = None
libc = None


def setup(build_dir, pkg_dir):
    """import the system under simulation (once, in the clean parent)"""
    global ctl, gfft, libc
    sys.path[:0] = [build_dir, pkg_dir]
    lib = ctypes.CDLL(build_dir + '/libsimrt.so')
    ctl = Ctl.in_dll(lib, 'sim_ctl')
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    import gaussianfft
    import gaussianfft.advanced
    gfft = gaussianfft
    R.load(build_dir + '/libref.so')


# ------------------------------------------------------------------ simulated process

def _call(op, objs):
    k = op['k']
    if k == 'seed':
        return gfft.seed(op['v'])
    if k == 'get_seed':
        return gfft.seed()
    if k == 'vario':
        s = op['spec']
        kw = {n: s[n] for n in ('perp_range', 'depth_range', 'azimuth', 'dip', 'power') if n in s}
        t = s['type']
        if s.get('enum'):
            t = gfft.VariogramType(t)
        objs[op['id']] = gfft.variogram(t, s['main'], **kw)
        return None
    if k == 'drop':
        objs.pop(op['id'], None)
        return None
    if k == 'corr':
        return objs[op['id']].corr(*op['a'])
    if k == 'size':
        return [int(x) for x in gfft.simulation_size(objs[op['id']], *op['a'])]
    if k == 'sim':
        if op.get('adv') is not None:
            return gfft.advanced.simulate(objs[op['id']], *op['a'], **op['adv'])
        return gfft.simulate(objs[op['id']], *op['a'])
    if k == 'quote':
        return gfft.quote()
    if k == 'bad':
        return BAD[op['which']](objs)
    raise ValueError(k)


BAD = {
    'seed_negative': lambda o: gfft.seed(-1),
    'seed_text': lambda o: gfft.seed('abc'),
    'seed_float': lambda o: gfft.seed(1.5),
    'seed_huge': lambda o: gfft.seed(2 ** 70),
    'sim_no_args': lambda o: gfft.simulate(),
    'sim_text_vario': lambda o: gfft.simulate('gaussian', 10, 1.0),
    'sim_negative_n': lambda o: gfft.simulate(gfft.variogram('gaussian', 5.0), -3, 1.0),
    'sim_unknown_kw': lambda o: gfft.simulate(gfft.variogram('gaussian', 5.0), 3, 1.0, bogus=3),
    'adv_bad_pad': lambda o: gfft.advanced.simulate(gfft.variogram('gaussian', 5.0), 3, 1.0, padx='x'),
    'vario_no_range': lambda o: gfft.variogram('gaussian'),
    'size_text': lambda o: gfft.simulation_size(gfft.variogram('gaussian', 5.0), 'x', 1.0),
    'corr_none': lambda o: gfft.variogram('gaussian', 5.0).corr(),
    'vario_text_range': lambda o: gfft.variogram('gaussian', 'far'),
    'sim_impossible_n': lambda o: gfft.simulate(gfft.variogram('gaussian', 5.0), 2 ** 60, 1.0),
}


def _execute(ev, objs):
    op, f = ev['op'], ev.get('fault', {})
    reps = ev.get('reps', 1)
    trend = None
    if reps > 1:
        trend = {n: array.array('q', [0] * reps) for n in
                 ('new_blocks', 'new_bytes', 'fft_blocks', 'fft_bytes', 'plans', 'py', 'heap')}
    ctl.clock_on = 1
    ctl.clock_sec, ctl.clock_nsec, ctl.clock_step_ns = ev['clock'][0], ev['clock'][1], ev['clock'][2]
    ctl.entropy_state = ev['ent']
    ctl.pid = ev['pid']
    ctl.fill_mode, ctl.fill_state = ev['fill'][0], ev['fill'][1]
    ctl.clock_reads = ctl.entropy_reads = ctl.kf0 = ctl.kf1 = ctl.kf2 = 0
    out = None
    for r in range(reps):
        res = exc = None
        ctl.kinds = f.get('kinds', 0)
        ctl.fail_at, ctl.fail_len = f.get('at', 0), f.get('len', 1)
        ctl.fired = ctl.points = 0
        ctl.in_op = 1
        try:
            res = _call(op, objs)
        except BaseException as e:      # noqa
            ctl.in_op = 0
            exc = (type(e).__name__, isinstance(e, Exception), str(e)[:200])
            del e
        ctl.in_op = 0
        fired, points = ctl.fired, ctl.points
        if isinstance(res, np.ndarray):
            out = ('arr', res.dtype.char, res.shape, res.tobytes())
        elif exc is not None:
            out = ('exc',) + exc
        else:
            out = ('val', res)
        del res, exc
        if trend is not None:
            gc.collect()
            mi = libc.mallinfo2()
            trend['new_blocks'][r] = ctl.new_blocks
            trend['new_bytes'][r] = ctl.new_bytes
            trend['fft_blocks'][r] = ctl.fft_blocks
            trend['fft_bytes'][r] = ctl.fft_bytes
            trend['plans'][r] = ctl.plans
            trend['py'][r] = sys.getallocatedblocks()
            trend['heap'][r] = mi.uordblks + mi.hblkhd
            del mi
    if trend is not None:
        trend = {n: list(v) for n, v in trend.items()}
    return {'out': out, 'fired': fired, 'points': points, 'kf': (ctl.kf0, ctl.kf1, ctl.kf2),
            'reads': ctl.clock_reads, 'sec': ctl.clock_sec, 'entropy': ctl.entropy_reads, 'trend': trend}


def _send(fd, obj):
    b = pickle.dumps(obj, 4)
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv_exact(fd, n, timeout):
    buf = b''
    while len(buf) < n:
        if timeout is not None:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                raise TimeoutError
        c = os.read(fd, min(1 << 20, n - len(buf)))
        if not c:
            raise EOFError
        buf += c
    return buf


def _recv(fd, timeout=None):
    n = struct.unpack('<Q', _recv_exact(fd, 8, timeout))[0]
    return pickle.loads(_recv_exact(fd, n, timeout))


def _child_loop(rfd, wfd):
    objs = {}
    while True:
        try:
            msg = _recv(rfd)
        except EOFError:
            os._exit(0)
        if msg[0] == 'fork':
            # msg carries named pipes' fds opened by the parent beforehand: pass by fifo path
            path_r, path_w = msg[1], msg[2]
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                os.close(wfd)
                rfd = os.open(path_r, os.O_RDONLY)
                wfd = os.open(path_w, os.O_WRONLY)
                continue
            _send(wfd, pid)
        else:
            _send(wfd, _execute(msg[1], objs))


ZMSG = 512
zygote = None


def start_zygote():
    """A process that has imported the module and does nothing but fork: every simulated
    process starts from the same memory, whatever this worker has done before."""
    global zygote
    r, w = os.pipe()
    if os.fork() == 0:
        os.close(w)
        null = os.open('/dev/null', os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)
        os.dup2(null, 2)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        while True:
            b = os.read(r, ZMSG)
            if not b:
                os._exit(0)
            if os.fork() == 0:
                try:
                    os.close(r)
                    pr, pw = b.decode().strip().split('\n')
                    rfd = os.open(pr, os.O_RDONLY)
                    wfd = os.open(pw, os.O_WRONLY)
                    _send(wfd, os.getpid())
                    _child_loop(rfd, wfd)
                finally:
                    os._exit(3)
    os.close(r)
    zygote = w


class Proc:
    def __init__(self, pid, w, r, n):
        self.pid, self.w, self.r = pid, w, r
        self.simpid = 1000 + 37 * n

    @staticmethod
    def spawn(scratch, n):
        pr, pw = '%s/s%dr' % (scratch, n), '%s/s%dw' % (scratch, n)
        os.mkfifo(pr)
        os.mkfifo(pw)
        b = ('%s\n%s' % (pr, pw)).encode()
        os.write(zygote, b + b' ' * (ZMSG - len(b)))
        w = os.open(pr, os.O_WRONLY)
        r = os.open(pw, os.O_RDONLY)
        os.unlink(pr)
        os.unlink(pw)
        return Proc(_recv(r, WATCHDOG_S), w, r, n)

    def fork(self, scratch, n):
        pr, pw = '%s/f%dr' % (scratch, n), '%s/f%dw' % (scratch, n)
        os.mkfifo(pr)
        os.mkfifo(pw)
        _send(self.w, ('fork', pr, pw))
        pid = _recv(self.r, WATCHDOG_S)
        w = os.open(pr, os.O_WRONLY)
        r = os.open(pw, os.O_RDONLY)
        os.unlink(pr)
        os.unlink(pw)
        return Proc(pid, w, r, n)

    def do(self, ev):
        """-> result dict, or ('died', how)"""
        try:
            _send(self.w, ('op', dict(ev, pid=self.simpid)))
            return _recv(self.r, WATCHDOG_S)
        except TimeoutError:
            return ('died', 'no answer within the watchdog time')
        except (EOFError, BrokenPipeError, ConnectionError):
            self.pid = None
            return ('died', 'the process is gone')

    def kill(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        self.pid = None


# ------------------------------------------------------------------ execution + oracle

class Violation(Exception):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text


class PState:
    def __init__(self):
        self.model = R.Model()
        self.varios = {}
        self.unsure = False      # a call failed on an injected fault since the last seeding
        self.maybe_auto = False  # ... and it may or may not have seeded from the clock
        self.alt_seeds = []      # ... and these seedings may or may not have happened

    def copy(self):
        q = PState()
        q.model = self.model.copy()
        q.varios = dict(self.varios)
        q.unsure, q.maybe_auto, q.alt_seeds = self.unsure, self.maybe_auto, list(self.alt_seeds)
        return q


def mkvario(s):
    return R.Vario(s['type'], s['main'], s.get('perp_range', -1.0), s.get('depth_range', -1.0),
                   s.get('azimuth', 0.0), s.get('dip', 0.0), s.get('power', 1.5))


class Stats:
    def __init__(self):
        self.c = {}
        self.states = set()
        self.sim_seconds = 0

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n


def monotone_growth(name, v):
    """Growth after the first two repetitions (which may fill caches).  Live C++
    blocks, FFT buffers and plans are exact counts: three increases and no decrease
    is growth.  The heap and the interpreter's block count are shared with the
    interpreter: growth there means growth on every single repetition."""
    t = v[2:]
    up = sum(b > a for a, b in zip(t, t[1:]))
    if any(b < a for a, b in zip(t, t[1:])):
        return False
    return up >= (3 if name in ('new_blocks', 'fft_blocks', 'plans') else max(4, len(t) - 1))


def execute(trace, scratch, stats=None, want=None):
    """Runs a trace.  Returns (log_hash, violation or None)."""
    stats = stats or Stats()
    procs, st = {}, {}
    h = hashlib.sha256()
    seconds = {}                 # clock second -> automatic seed seen in this run
    nfork = 0
    last_clock = None
    vio = None
    idx = -1
    try:
        for idx, ev in enumerate(trace):
            p = ev['p']
            t = ev['t']
            if t == 'start':
                if p in procs:
                    procs.pop(p).kill()
                nfork += 1
                procs[p] = Proc.spawn(scratch, nfork)
                st[p] = PState()
                stats.add('proc_start')
                continue
            if p not in procs:
                continue
            if t == 'crash':
                procs.pop(p).kill()
                st.pop(p)
                stats.add('fault_crash')
                continue
            if t == 'fork':
                q = ev['q']
                if q in procs:
                    procs.pop(q).kill()
                nfork += 1
                procs[q] = procs[p].fork(scratch, nfork)
                st[q] = st[p].copy()
                stats.add('fault_fork')
                continue
            # a call
            op = ev['op']
            s = st[p]
            if op['k'] in ('corr', 'size', 'sim') and op['id'] not in s.varios:
                continue
            res = procs[p].do(ev)
            if isinstance(res, tuple):
                h.update(repr(res).encode())
                raise Violation('process-died', 'call %s in process %d ended the process: %s'
                                % (brief(op), p, res[1]))
            h.update(repr((idx, res['out'], res['fired'], res['points'], res['reads'], res['entropy'])).encode())
            stats.add('op_' + op['k'])
            for n, k in enumerate(('new', 'fftmem', 'plan')):
                if res['kf'][n]:
                    stats.add('fault_fail_' + k, res['kf'][n])
            if ev['fill'][0]:
                stats.add('fault_dirty_heap')
            if ev.get('jump'):
                stats.add('fault_clock_' + ev['jump'])
            now = ev['clock'][0]
            if last_clock is not None:
                stats.add('simulated_seconds', abs(now - last_clock))
            last_clock = now
            check(ev, res, s, seconds, procs[p], stats, h)
    except Violation as v:
        vio = {'class': v.cls, 'text': v.text, 'event': idx}
    finally:
        for q in procs.values():
            q.kill()
    return h.hexdigest(), vio


def brief(op):
    if op['k'] == 'sim':
        return 'simulate(%s%s)' % (', '.join('%g' % a for a in op['a']),
                                   ''.join(', %s=%g' % kv for kv in sorted((op.get('adv') or {}).items())))
    return op['k'] + str({k: v for k, v in op.items() if k != 'k'})


def check(ev, res, s, seconds, proc, stats, h):
    op, out, fired = ev['op'], res['out'], res['fired']
    reps = ev.get('reps', 1)
    k = op['k']
    if res['trend']:
        for n, v in res['trend'].items():
            if monotone_growth(n, v):
                raise Violation('memory-grows', '%s repeated %d times%s: %s keeps growing: %s'
                                % (brief(op), reps, ' failing each time' if fired else '', n, v[2:]))
    if fired:
        stats.add('faulted_calls')
        if out[0] == 'exc':
            if not out[2]:
                raise Violation('wrong-error', '%s failed with %s' % (brief(op), out[1]))
            if k in ('sim', 'seed'):
                s.unsure = True
                if k == 'seed':
                    s.alt_seeds = s.alt_seeds + [op['v']]
                elif s.model.start is None:
                    s.maybe_auto = True
            if k == 'vario':
                s.varios.pop(op['id'], None)
            return
        # survived the fault: then the answer has to be right, below
        stats.add('faulted_calls_survived')
    if k == 'bad':
        if out[0] != 'exc' or not out[2]:
            raise Violation('bad-call-accepted', '%s returned %r' % (op['which'], out[1:]))
        if op['which'] == 'sim_impossible_n':
            # got as far as running out of memory: like any call that failed on a fault
            s.unsure = True
            if s.model.start is None:
                s.maybe_auto = True
        return
    if k == 'get_seed':
        want = s.model.get_seed()
        if s.maybe_auto:
            if out[0] != 'val' and out[1] != 'RuntimeError':
                raise Violation('seed-report', 'seed() gave %r' % (out[1:],))
        elif want is None and not s.alt_seeds:
            if out[0] != 'exc' or out[1] != 'RuntimeError':
                raise Violation('seed-report', 'seed() in an unseeded process gave %r instead of RuntimeError' % (out[1:],))
        elif out[0] != 'val' or (out[1] != want and out[1] not in s.alt_seeds):
            raise Violation('seed-report', 'seed() gives %r, expected %r' % (out[1:], want))
        return
    if out[0] == 'exc':
        raise Violation('call-failed', '%s raised %s: %s' % (brief(op), out[1], out[3]))
    if k == 'seed':
        for _ in range(reps):
            s.model.seed(op['v'])
        s.unsure = s.maybe_auto = False
        s.alt_seeds = []
    elif k == 'vario':
        s.varios[op['id']] = mkvario(op['spec'])
    elif k == 'drop':
        s.varios.pop(op['id'], None)
    elif k == 'corr':
        want = float(s.varios[op['id']].corr(*[np.float64(a) for a in op['a']]))
        if not abs(out[1] - want) <= 1e-9 + 1e-7 * abs(want):
            raise Violation('correlation', 'corr%r = %r, expected %r' % (tuple(op['a']), out[1], want))
    elif k == 'size':
        want = R.sim_size(s.varios[op['id']], *op['a'])
        if out[1] != want:
            raise Violation('padded-size', 'simulation_size%r = %r, expected %r' % (tuple(op['a']), out[1], want))
    elif k == 'quote':
        if not (isinstance(out[1], str) and out[1]):
            raise Violation('quote', 'quote() = %r' % (out[1],))
    elif k == 'sim':
        check_field(ev, res, s, seconds, proc, stats, h)


def check_field(ev, res, s, seconds, proc, stats, h):
    op, out = ev['op'], res['out']
    reps = ev.get('reps', 1)
    plan = R.Plan(s.varios[op['id']], *op['a'], **(op.get('adv') or {}))
    n = int(np.prod(plan.n))
    if out[0] != 'arr' or out[1] != 'd' or tuple(out[2]) != (n,):
        raise Violation('field-shape', '%s returned %r' % (brief(op), out[:3]))
    z = np.frombuffer(out[3])
    if s.unsure:
        if not np.isfinite(z).all():
            raise Violation('field-value', '%s after a failed call returned non-finite values' % brief(op))
        return
    if s.model.start is None:
        # the module seeded itself: it has to say with what
        g = proc.do({'op': {'k': 'get_seed'}, 'clock': ev['clock'], 'ent': 0, 'fill': (0, 0)})
        if isinstance(g, tuple) or g['out'][0] != 'val':
            raise Violation('seed-report', 'seed() failed after an automatic seeding: %r' % (g if isinstance(g, tuple) else g['out'][1:],))
        seed = g['out'][1]
        h.update(repr(seed).encode())
        stats.add('auto_seeded')
        s.model.seed(seed)
        if res['sec'] == ev['clock'][0]:
            sec = ev['clock'][0]
            stats.add('auto_seed_seconds')
            if sec in seconds:
                stats.add('auto_seed_same_second')
                if seconds[sec] != seed:
                    raise Violation('auto-seed', 'two processes seeding themselves in second %d got seeds %d and %d'
                                    % (sec, seconds[sec], seed))
            for o, v in seconds.items():
                if o != sec and v == seed and (o - sec) % (1 << 32):
                    raise Violation('auto-seed', 'processes seeding themselves in seconds %d and %d got the same seed %d' % (o, sec, v))
            seconds[sec] = seed
    stats.states.add(hash((s.model.s.state()[:64], s.model.s.state()[-8:], plan.key)) & 0xffffffffffff)
    for _ in range(reps):
        want = s.model.simulate(plan, 0)
    err = np.abs(z - want)
    bad = ~(err <= plan.tol)
    stats.add('fields_checked')
    stats.add('values_checked', n)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('field-value', '%s: value %d is %r, the model says %r (tolerance %.1e, %d of %d values differ)'
                        % (brief(op), i, float(z[i]), float(want[i]), plan.tol, int(bad.sum()), n))
