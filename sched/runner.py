"""Executes runs of the thread-schedule simulation.  Invoked by /verif/run.py.

A run: a few threads, each with a list of module calls, and a schedule.  When searching,
the schedule comes from a PRNG inside the runtime and is recorded; on replay the recorded
switch list drives it.  Every run executes in a fork of a parent that has imported the
module but never used it."""
import ctypes
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'core'), os.path.join(os.path.dirname(HERE), 'lib')]
import numpy as np
import common
import gen
import refmodel as R

rt = None
gfft = None
WATCHDOG_S = 150


def setup(build_dir, pkg_dir):
    global rt, gfft
    sys.path[:0] = [build_dir, pkg_dir]
    rt = ctypes.CDLL(build_dir + '/libschedrt.so', mode=ctypes.RTLD_GLOBAL)
    rt.sched_setup.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_double, ctypes.c_double]
    rt.sched_clock.argtypes = [ctypes.c_int64, ctypes.c_int64, ctypes.c_uint64]
    rt.sched_plan.argtypes = [ctypes.c_int64, ctypes.c_int]
    rt.sched_stamp.restype = rt.sched_get.restype = rt.sched_log_step.restype = ctypes.c_int64
    rt.sched_log_step.argtypes = rt.sched_log_to.argtypes = rt.sched_log_why.argtypes = [ctypes.c_int64]
    import gaussianfft
    import gaussianfft.advanced
    gfft = gaussianfft
    with open(build_dir + '/functions.json') as f:
        tab = [x for t in json.load(f) for x in t]
    arr = (ctypes.c_int64 * len(tab))(*tab)
    rt.sched_funcs.argtypes = [ctypes.c_int64, ctypes.c_void_p]
    rt.sched_funcs(len(tab) // 3, ctypes.addressof(arr))
    R.load(build_dir.replace('/sched', '/core') + '/libref.so')


# ------------------------------------------------------------------ generation

def small_sim(r, spec):
    a, adv, _ = gen.sim_args(r, spec, r.choice([40, 150, 500]), r.choice([[1], [2], [3], [1, 2, 3], [1, 1, 2, 3]]))
    op = {'k': 'sim', 'a': a}
    if adv is not None:
        op['adv'] = adv
    return op


def generate(r):
    nt = r.choice([2, 2, 2, 3, 3, 4])
    nv = r.randint(1, 3)
    specs = [gen.vario(r) for _ in range(nv)]
    unseeded = r.random() < 0.2
    w = {'sim': r.uniform(2, 6), 'seed': 0 if unseeded else r.uniform(0, 2), 'get_seed': r.uniform(0, 1.5),
         'size': r.uniform(0, 1), 'corr': r.uniform(0, 1), 'vario': r.uniform(0, 1), 'quote': r.uniform(0, 0.2)}
    if r.random() < 0.3:
        # mostly queries: the calls that take no lock
        w.update(sim=r.choice([0, 0.5, 2]), size=r.uniform(0, 3), corr=r.uniform(0.5, 4), vario=r.uniform(0, 2))
    names = list(w)
    threads = []
    shared = r.random() < 0.7
    for t in range(nt):
        ops = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            k = r.choices(names, [w[n] for n in names])[0]
            vi = r.randrange(nv) if shared else t % nv
            if k == 'sim':
                op = small_sim(r, specs[vi])
            elif k == 'seed':
                op = {'k': 'seed', 'v': gen.seed_value(r)}
            elif k == 'size':
                op = {'k': 'size', 'a': gen.size_args(r, specs[vi])}
            elif k == 'corr':
                op = {'k': 'corr', 'a': [specs[vi]['main'] * r.uniform(-1.5, 1.5) for _ in range(r.choice([1, 2, 3]))],
                      'n': r.choice([1, 3, 8])}
            elif k == 'vario':
                op = {'k': 'vario', 'spec': gen.vario(r), 'a': [r.uniform(0, 100.0)]}
            else:
                op = {'k': k}
            op['id'] = vi
            ops.append(op)
        threads.append(ops)
    return {'specs': specs, 'threads': threads, 'seed': None if unseeded else gen.seed_value(r),
            'sched': {'rng': r.getrandbits(63), 'pg': r.choice([0.0, 0.001, 0.02, 0.2, 0.5]),
                      'ph': r.choice([0.0, 1e-5, 1e-4, 1e-3, 0.02]), 'first': r.randrange(nt),
                      'clock': [r.randint(10 ** 8, 2 * 10 ** 9), r.choice([0, 0, 20, 500, 10 ** 4]), r.getrandbits(60)]}}


# ------------------------------------------------------------------ execution (in the fork)

def mk(s):
    kw = {n: s[n] for n in ('perp_range', 'depth_range', 'azimuth', 'dip', 'power') if n in s}
    t = s['type']
    if s.get('enum'):
        t = gfft.VariogramType(t)
    return gfft.variogram(t, s['main'], **kw)


def call(op, objs):
    k = op['k']
    if k == 'seed':
        return gfft.seed(op['v'])
    if k == 'get_seed':
        return gfft.seed()
    if k == 'size':
        return [int(x) for x in gfft.simulation_size(objs[op['id']], *op['a'])]
    if k == 'corr':
        return [objs[op['id']].corr(*op['a']) for _ in range(op['n'])]
    if k == 'vario':
        return mk(op['spec']).corr(*op['a'])
    if k == 'quote':
        return gfft.quote()
    if 'adv' in op:
        return gfft.advanced.simulate(objs[op['id']], *op['a'], **op['adv'])
    return gfft.simulate(objs[op['id']], *op['a'])


def in_child(tr):
    nt = len(tr['threads'])
    objs = [mk(s) for s in tr['specs']]
    if tr['seed'] is not None:
        gfft.seed(tr['seed'])
    c = tr['sched']
    rt.sched_setup(nt, c.get('rng', 0), c.get('pg', 0.0), c.get('ph', 0.0))
    rt.sched_clock(*c['clock'])
    if 'switches' in c:
        rt.sched_replay()
        for step, to in c['switches']:
            rt.sched_plan(step, to)
    hist = [[] for _ in range(nt)]

    def body(t):
        rt.sched_enter(t)
        for op in tr['threads'][t]:
            a = rt.sched_stamp()
            try:
                res = call(op, objs)
                if isinstance(res, np.ndarray):
                    res = ('arr', res.dtype.char, res.shape, res.tobytes())
                else:
                    res = ('val', res)
            except BaseException as e:     # noqa
                res = ('exc', type(e).__name__, str(e)[:200])
            hist[t].append((a, rt.sched_stamp(), res))
        rt.sched_leave()

    # the interpreter must not hand the lock over by itself
    sys.setswitchinterval(1e6)
    th = [threading.Thread(target=body, args=(t,)) for t in range(nt)]
    for x in th:
        x.start()
        rt.sched_await()
    rt.sched_start(c['first'])
    for x in th:
        x.join()
    try:
        final = ('val', gfft.seed())
    except Exception as e:                  # noqa
        final = ('exc', type(e).__name__, str(e)[:200])
    n = rt.sched_get(1)
    log = [(rt.sched_log_step(i), rt.sched_log_to(i), rt.sched_log_why(i)) for i in range(n)]
    return {'hist': hist, 'final': final, 'log': log,
            'steps': [rt.sched_get(i) for i in (0, 2, 3, 4, 5)], 'shared': rt.sched_get(6)}


class Zygote:
    """A process that has imported the module and does nothing but fork: every run starts
    from the same memory, whatever this worker has done before."""

    def __init__(self):
        self.cmd_r, self.cmd_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.sta_r, self.sta_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.cmd_w)
            os.close(self.res_r)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            while os.read(self.cmd_r, 1):
                pid = os.fork()
                if pid == 0:
                    self.child()
                os.write(self.sta_w, struct.pack('<Q', pid))
                os.write(self.sta_w, struct.pack('<Q', os.waitpid(pid, 0)[1]))
            os._exit(0)
        os.close(self.cmd_r)
        os.close(self.res_w)
        os.close(self.sta_w)

    def child(self):
        try:
            n = struct.unpack('<Q', self.exact(self.cmd_r, 8))[0]
            b = pickle.dumps(in_child(pickle.loads(self.exact(self.cmd_r, n))), 4)
            b = struct.pack('<Q', len(b)) + b
            while b:
                n = os.write(self.res_w, b)
                b = b[n:]
            os._exit(0)
        finally:
            os._exit(3)

    @staticmethod
    def exact(fd, n):
        buf = b''
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return buf

    def run(self, tr):
        """-> (result or None, wait status, late)"""
        b = pickle.dumps(tr, 4)
        b = b'x' + struct.pack('<Q', len(b)) + b
        while b:
            n = os.write(self.cmd_w, b)
            b = b[n:]
        pid = struct.unpack('<Q', self.exact(self.sta_r, 8))[0]
        res, late = None, False
        while True:
            fds = select.select([self.res_r, self.sta_r], [], [], WATCHDOG_S)[0]
            if self.res_r in fds:
                try:
                    res = self.exact(self.res_r, struct.unpack('<Q', self.exact(self.res_r, 8))[0])
                except EOFError:
                    res = None
            elif fds:
                return res, struct.unpack('<Q', self.exact(self.sta_r, 8))[0], late
            else:
                late = True
                os.kill(pid, signal.SIGKILL)


zygote = None


def in_fork(tr):
    buf, st, late = zygote.run(tr)
    if late:
        return None, 'hang', 'no answer within %d s' % WATCHDOG_S
    if os.WIFSIGNALED(st):
        return None, 'process-died', 'the process was killed by signal %d' % os.WTERMSIG(st)
    code = os.WEXITSTATUS(st)
    if code == 71:
        return None, 'deadlock', 'every thread waits for another one'
    if code == 72:
        return None, 'no-progress', 'the threads are still running after 400 million steps'
    if code:
        return None, 'process-died', 'exit status %d' % code
    return pickle.loads(buf), None, None


# ------------------------------------------------------------------ oracle

def vario(s):
    return R.Vario(s['type'], s['main'], s.get('perp_range', -1.0), s.get('depth_range', -1.0),
                   s.get('azimuth', 0.0), s.get('dip', 0.0), s.get('power', 1.5))


def show(op):
    if op['k'] == 'sim':
        return 'simulate(%s)' % ', '.join('%g' % a for a in op['a'])
    return {'seed': 'seed(%s)' % op.get('v'), 'get_seed': 'seed()'}.get(op['k'], op['k'])


def judge(tr, out):
    """-> None or (class, text)"""
    vs = [vario(s) for s in tr['specs']]
    stateful = []
    for t, ops in enumerate(tr['threads']):
        for i, op in enumerate(ops):
            a, b, res = out['hist'][t][i]
            k = op['k']
            where = '%s in thread %d' % (show(op), t)
            if k in ('seed', 'get_seed', 'sim'):
                stateful.append((t, i, a, b, op, res))
                continue
            if res[0] != 'val':
                return 'call-failed', '%s raised %s: %s' % (where, res[1], res[2])
            if k == 'size':
                want = R.sim_size(vs[op['id']], *op['a'])
                if res[1] != want:
                    return 'padded-size', '%s gave %r, expected %r' % (where, res[1], want)
            elif k == 'corr':
                want = float(vs[op['id']].corr(*[np.float64(x) for x in op['a']]))
                if any(not abs(g - want) <= 1e-9 + 1e-7 * abs(want) for g in res[1]):
                    return 'correlation', '%s gave %r, expected %r' % (where, res[1], want)
            elif k == 'vario':
                want = float(vario(op['spec']).corr(*[np.float64(x) for x in op['a']]))
                if not abs(res[1] - want) <= 1e-9 + 1e-7 * abs(want):
                    return 'correlation', '%s gave %r, expected %r' % (where, res[1], want)
    # the stateful calls have to be explained by some order compatible with real time
    n = len(stateful)
    plans, fields = {}, []
    for t, i, a, b, op, res in stateful:
        if op['k'] != 'sim':
            fields.append(None)
            if op['k'] == 'seed' and res[0] != 'val':
                return 'call-failed', 'seed(%d) raised %s: %s' % (op['v'], res[1], res[2])
            continue
        if res[0] != 'arr':
            return 'call-failed', '%s in thread %d gave %r' % (show(op), t, res)
        p = R.Plan(vs[op['id']], *op['a'], **(op.get('adv') or {}))
        plans[(t, i)] = p
        want = int(np.prod(p.n))
        if res[1] != 'd' or tuple(res[2]) != (want,):
            return 'field-shape', '%s in thread %d returned %r' % (show(op), t, res[:3])
        fields.append(np.frombuffer(res[3]))
    auto = out['final'][1] if out['final'][0] == 'val' else None
    best = [0, None]
    failed = {}

    def search(done, model, unseeded):
        if len(done) > best[0]:
            best[0] = len(done)
        if len(done) == n:
            if unseeded:
                return out['final'][0] == 'exc'
            return out['final'] == ('val', model.start)
        key = (frozenset(done), unseeded, None if unseeded else (model.start, hashlib.sha1(model.s.state()).digest()))
        if key in failed:
            return False
        rest = [x for x in range(n) if x not in done]
        for x in rest:
            t, i, a, b, op, res = stateful[x]
            if any(stateful[y][3] < a for y in rest if y != x):
                continue
            if op['k'] == 'get_seed':
                ok = (res[0] == 'exc' and res[1] == 'RuntimeError') if unseeded else res == ('val', model.start)
                if ok and search(done + [x], model, unseeded):
                    return True
                continue
            m = R.Model() if unseeded else model.copy()
            if op['k'] == 'seed':
                m.seed(op['v'])
                if search(done + [x], m, False):
                    return True
                continue
            if unseeded:
                if auto is None:
                    continue
                m.seed(auto)
            p = plans[(t, i)]
            want = m.simulate(p, 0)
            if (np.abs(fields[x] - want) <= p.tol).all() and search(done + [x], m, False):
                return True
        failed[key] = True
        return False

    m = R.Model()
    if tr['seed'] is not None:
        m.seed(tr['seed'])
    if not search([], m, tr['seed'] is None):
        text = '; '.join('thread %d [%d,%d] %s -> %s' % (t, a, b, show(op), res[1] if res[0] != 'arr' else
                                                        '%.6f..' % np.frombuffer(res[3])[0] if len(res[3]) else '[]')
                         for t, i, a, b, op, res in sorted(stateful, key=lambda e: e[2]))
        return 'not-linearizable', ('no order of these calls explains the results (at most %d of %d calls can be '
                                    'explained): %s; seed() afterwards: %r' % (best[0], n, text, out['final'][1]))
    return None


def one(tr, st=None):
    out, cls, text = in_fork(tr)
    if out is None:
        return hashlib.sha256(repr((cls, text)).encode()).hexdigest(), {'class': cls, 'text': text}, None
    h = hashlib.sha256(repr((out['hist'], out['final'], out['log'], out['steps'])).encode()).hexdigest()
    if st is not None:
        st['simulated_steps'] = st.get('simulated_steps', 0) + out['steps'][0]
        for i, k in enumerate(('static_accesses', 'other_accesses', 'sync_operations', 'fault_lock_contention')):
            st[k] = st.get(k, 0) + out['steps'][1 + i]
        st['shared_word_accesses'] = st.get('shared_word_accesses', 0) + out['shared']
        for _, to, why in out['log']:
            k = ('fault_preemption', 'fault_forced_switch', 'switch_blocked', 'switch_thread_end')[why]
            st[k] = st.get(k, 0) + 1
        st['calls'] = st.get('calls', 0) + sum(len(x) for x in out['hist'])
        ov = sum(1 for t, x in enumerate(out['hist']) for a in x
                 for u, y in enumerate(out['hist']) if u > t for b in y if a[0] < b[1] and b[0] < a[1])
        st['overlapping_call_pairs'] = st.get('overlapping_call_pairs', 0) + ov
    v = judge(tr, out)
    return h, ({'class': v[0], 'text': v[1]} if v else None), out


def pinned(tr, out):
    """the same run with its schedule written out"""
    c = {'first': tr['sched']['first'], 'clock': tr['sched']['clock'], 'switches': [[s, t] for s, t, why in out['log'] if t >= 0]}
    return dict(tr, sched=c)



def batch(job):
    seed, st, states = job['seed'], {}, set()
    t0 = time.time()
    n, vio = 0, None
    for i in range(job['first'], job['last'], job['stride']):
        if time.time() - t0 > job['budget']:
            break
        tr = generate(common.run_rng(seed, 'C03', i))
        h, v, out = one(tr, st)
        n += 1
        if out is not None and any(w == 0 for _, _, w in out['log']):
            states.add(int(hashlib.sha256(repr((tr['threads'], out['log'])).encode()).hexdigest()[:12], 16))
        if i % job['recheck'] == 0:
            h2, v2, out2 = one(tr)
            st['determinism_rechecks'] = st.get('determinism_rechecks', 0) + 1
            if h2 != h:
                return {'error': 'run %d is not deterministic' % i}
            if out is not None and v is None:
                h3, v3, out3 = one(pinned(tr, out))
                if out3 is None or out3['hist'] != out['hist']:
                    return {'error': 'run %d: replaying its recorded schedule gives another history' % i}
        if v:
            if out is not None:
                # report the schedule itself, not the generator that produced it
                p = pinned(tr, out)
                hp, vp, _ = one(p)
                if vp and vp['class'] == v['class']:
                    tr, v, h = p, vp, hp
            vio = {'index': i, 'trace': [tr], 'violation': v, 'hash': h}
            break
    s = generate(common.run_rng(seed, 'C03', job['first']))
    return {'runs': n, 'stats': st, 'states': sorted(states), 'vio': vio, 'wall': time.time() - t0,
            'sample': s if job['first'] == 0 else None}


def minimise(job):
    tr, cls = job['trace'][0], job['class']
    t0 = time.time()

    def fails(x):
        if time.time() - t0 > 100:
            return False
        _, v, _ = one(x)
        return v is not None and v['class'] == cls

    h, v, out = one(tr)
    if out is not None:
        p = pinned(tr, out)
        if fails(p):
            tr = p
    # whole calls first (the schedule then shifts, so only when it still fails), then switches
    changed = True
    while changed:
        changed = False
        for t in range(len(tr['threads'])):
            for i in range(len(tr['threads'][t])):
                th = [list(x) for x in tr['threads']]
                del th[t][i]
                cand = dict(tr, threads=th)
                if fails(cand):
                    tr, changed = cand, True
                    break
            if changed:
                break
    if 'switches' in tr['sched']:
        sw = common.ddmin(tr['sched']['switches'], lambda s: fails(dict(tr, sched=dict(tr['sched'], switches=s))), 300)
        tr = dict(tr, sched=dict(tr['sched'], switches=sw))
    h1, v1, _ = one(tr)
    h2, v2, _ = one(tr)
    return {'trace': [tr], 'hash': h1, 'same': h1 == h2 and v1 == v2, 'violation': v1}


def main():
    global zygote
    setup(os.environ['VERIF_BUILD'], os.environ['VERIF_PKG'])
    zygote = Zygote()
    job = json.load(sys.stdin)
    if job['mode'] == 'batch':
        r = batch(job)
    elif job['mode'] == 'minimise':
        r = minimise(job)
    else:
        h, v, _ = one(job['trace'][0])
        r = {'hash': h, 'violation': v}
    sys.stdout.write('\n@@' + json.dumps(r) + '\n')


main()
