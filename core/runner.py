"""Executes runs of the core simulation inside the simulated environment
(LD_PRELOAD=libsimrt.so).  Invoked by /verif/run.py."""
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import common
import gen
import world


def one(trace, stats=None):
    scratch = tempfile.mkdtemp(prefix='core', dir=os.environ['VERIF_SCRATCH'])
    try:
        return world.execute(trace, scratch, stats)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def batch(job):
    prop, seed = job['prop'], job['seed']
    stats = world.Stats()
    t0 = time.time()
    n = 0
    hashes = []
    vio = None
    for i in range(job['first'], job['last'], job['stride']):
        if time.time() - t0 > job['budget']:
            break
        trace = gen.generate(prop, common.run_rng(seed, prop, i))
        h, v = one(trace, stats)
        n += 1
        if job.get('hashes'):
            hashes.append((i, h))
        if job.get('recheck') and i % job['recheck'] == 0:
            h2, v2 = one(trace)
            stats.add('determinism_rechecks')
            if h2 != h:
                return {'error': 'run %d is not deterministic' % i}
        if v:
            vio = {'index': i, 'trace': trace, 'violation': v, 'hash': h}
            break
    sample = gen.generate(prop, common.run_rng(seed, prop, job['first']))
    return {'runs': n, 'stats': stats.c, 'states': sorted(stats.states), 'vio': vio, 'hashes': hashes,
            'wall': time.time() - t0, 'sample': sample[:6] if job['first'] == 0 else None}


def minimise(job):
    trace, cls = job['trace'], job['class']

    def fails(t):
        _, v = one(t)
        return v is not None and v['class'] == cls

    t0 = time.time()
    cur = common.ddmin(trace, lambda t: time.time() - t0 < 90 and fails(t), 300)
    changed = True
    while changed and time.time() - t0 < 120:
        changed = False
        for i in range(len(cur)):
            for e in gen.simplify(cur[i]):
                cand = cur[:i] + [e] + cur[i + 1:]
                if fails(cand):
                    cur, changed = cand, True
                    break
    h1, v1 = one(cur)
    h2, v2 = one(cur)
    return {'trace': cur, 'hash': h1, 'same': h1 == h2 and v1 == v2, 'violation': v1}


def main():
    world.setup(os.environ['VERIF_BUILD'], os.environ['VERIF_PKG'])
    world.start_zygote()
    job = json.load(sys.stdin)
    if job['mode'] == 'batch':
        r = batch(job)
    elif job['mode'] == 'minimise':
        r = minimise(job)
    else:
        h, v = one(job['trace'])
        r = {'hash': h, 'violation': v}
    sys.stdout.write('\n@@' + json.dumps(r) + '\n')


main()
