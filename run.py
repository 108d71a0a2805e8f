#!/usr/bin/env python3
"""Entry point of every registered check.

  run.py check <ID> [--tier quick|thorough] [--runs N] [--budget S]
  run.py replay <file>
  run.py setup                     build every simulation variant

Exit 0: the property held on every simulated run.  Exit 1: a violation, with the
line "VIOLATION property=<id> replay=<path>".  Exit 2: the check itself failed."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/lib')
sys.dont_write_bytecode = True
import build
import common
import harness

WORKERS = os.cpu_count() or 4


def known_findings():
    out = []
    try:
        with open(VERIF + '/known_findings.txt') as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('known: '):
                    out.append(json.loads(line[7:]))
    except OSError:
        pass
    return out


class Session:
    """one build of one harness + scratch space; runs jobs in fresh worker processes"""

    def __init__(self, prop):
        self.h = harness.for_property(prop)
        self.scratch = tempfile.mkdtemp(prefix='verif-sim-')
        self.cmd, self.env, self.extra = self.h.prepare()
        if subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            self.cmd = ['setarch', '-R'] + self.cmd      # same addresses every time, where the system allows it

    def start(self, **job):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('PYTHON'):
                del env[k]
        env.update(self.env, **self.extra)
        env.update(VERIF_SCRATCH=self.scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C', TZ='UTC')
        out = tempfile.TemporaryFile()
        err = tempfile.TemporaryFile()
        p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=out, stderr=err, env=env, cwd=self.scratch)
        p.stdin.write(json.dumps(job).encode())
        p.stdin.close()
        return p, out, err

    @staticmethod
    def finish(h):
        p, out, err = h
        p.wait()
        out.seek(0)
        txt = out.read().decode('utf-8', 'replace')
        i = txt.rfind('\n@@')
        if i < 0:
            err.seek(0)
            raise RuntimeError('worker gave no result (exit %s)\n%s\n%s' % (p.returncode, txt[-2000:], err.read().decode('utf-8', 'replace')[-4000:]))
        r = json.loads(txt[i + 3:])
        if r.get('error'):
            raise RuntimeError(r['error'])
        return r

    def job(self, **job):
        return self.finish(self.start(**job))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def check(prop, tier, runs, budget):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    known = [k for k in known_findings() if k['property'] == prop]
    s = Session(prop)
    cfg = s.h.plan(prop, tier)
    runs = runs or cfg['runs']
    budget = budget or cfg['budget']
    try:
        print('%s %s: seed %d, at most %d simulated runs in %d s, build took %.0f s'
              % (prop, tier, seed, runs, budget, time.time() - t0), flush=True)
        t1 = time.time()
        ws = [s.start(mode='batch', prop=prop, seed=seed, first=w, last=runs, stride=WORKERS, budget=budget,
                      recheck=cfg['recheck'], known=known, tier=tier) for w in range(WORKERS)]
        res, errors = [], []
        for w in ws:
            try:
                res.append(s.finish(w))
            except RuntimeError as e:
                errors.append(str(e))
        if errors and not any(r['vio'] for r in res):
            raise RuntimeError(errors[0])
        search_s = time.time() - t1
        stats, states, total = {}, set(), 0
        kf = {}
        for r in res:
            merge(stats, r['stats'])
            states.update(r['states'])
            total += r['runs']
            merge(kf, r.get('known', {}))
        # findings already on file: report them, every one that still fails
        for k in known:
            if k.get('trace') is not None:
                r = s.job(mode='replay', prop=prop, trace=k['trace'], known=[])
                if r['violation'] and r['violation']['class'] == k['class']:
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        vios = sorted((r['vio'] for r in res if r['vio']), key=lambda v: v['index'])
        rate = total / max(search_s, 1e-9) * 3600
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault_')}
        cov = {
            'evaluations': total,
            'distinct_nontrivial': len(states),
            'rule': s.h.rule(prop),
            'samples': [r['sample'] for r in res if r.get('sample')][:2],
            'runs_per_hour': round(rate),
            'seeds_per_hour': round(rate),
            'determinism_rechecks': stats.pop('determinism_rechecks', 0),
            'faults_injected': faults,
            'counters': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault_')},
            'real_components': s.h.real,
            'stubbed_components': s.h.stubs,
            'workers': WORKERS,
            'known_findings_hit': kf,
        }
        cov.update(s.h.extra_coverage(stats))
        code = 0
        if vios:
            code = report(s, prop, seed, vios[0], known)
        common.write_json(VERIF + '/evidence/%s.json' % prop, {
            'property': prop, 'tier': tier, 'seed': seed, 'level': s.h.level, 'coverage': cov,
            'assumptions': s.h.assumptions(prop), 'wall_s': round(time.time() - t0, 2), 'violations': len(vios)})
        if not vios:
            missing = [f for f in cfg.get('must', []) if not stats.get(f)] if tier == 'quick' and runs == cfg['runs'] else []
            if missing:
                print('the simulation never exercised: %s' % ', '.join(missing), file=sys.stderr)
                return 2
            print('%s: held on %d simulated runs (%d distinct), %.0f s' % (prop, total, len(states), time.time() - t0))
        return code
    finally:
        s.close()


def report(s, prop, seed, v, known):
    """minimise, gate on exact repetition, write the replay file"""
    print('violation in run %d: [%s] %s' % (v['index'], v['violation']['class'], v['violation']['text']), flush=True)
    cls = v['violation']['class']

    def repeat(trace, h):
        """-> (result of the best replay, exact?): the violation has to come back in a fresh process"""
        best = None
        for _ in range(4):
            r = s.job(mode='replay', prop=prop, trace=trace, known=known)
            if r['violation'] and r['violation']['class'] == cls:
                if r['hash'] == h:
                    return r, True
                best = best or r
        return best, False

    again, exact = repeat(v['trace'], v['hash'])
    if not again:
        raise RuntimeError('the violation did not repeat in a fresh process: the simulation is not deterministic')
    m = s.job(mode='minimise', prop=prop, trace=v['trace'], known=known, **{'class': cls})
    r, mexact = (None, False)
    if m['violation'] and m['violation']['class'] == cls:
        r, mexact = repeat(m['trace'], m['hash'])
    if not r or (exact and not mexact):
        m, r, mexact = {'trace': v['trace']}, again, exact
    if not mexact:
        print('note: the violation repeats but its details do not: the code under test depends on something outside the simulation')
    path = '%s/replays/%s-%s.json' % (VERIF, prop, common.digest(m['trace']))
    common.write_json(path, {'property': prop, 'seed': seed, 'run': v['index'], 'violation': r['violation'],
                             'hash': r['hash'], 'exact': mexact, 'trace': m['trace']})
    print('minimised to %d events: [%s] %s' % (len(m['trace']), r['violation']['class'], r['violation']['text']))
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    return 1


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    s = Session(rec['property'])
    try:
        r = s.job(mode='replay', prop=rec['property'], trace=rec['trace'], known=[])
    finally:
        s.close()
    if not r['violation']:
        print('no violation: the trace runs clean on this tree')
        return 0
    print('[%s] %s' % (r['violation']['class'], r['violation']['text']))
    print('history %s' % ('identical to the recorded one' if r['hash'] == rec['hash'] else 'differs from the recorded one'))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='what', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    c.add_argument('--runs', type=int)
    c.add_argument('--budget', type=float)
    r = sub.add_parser('replay')
    r.add_argument('file')
    sub.add_parser('setup')
    a = ap.parse_args()
    try:
        if a.what == 'check':
            return check(a.prop, a.tier, a.runs, a.budget)
        if a.what == 'replay':
            return replay(a.file)
        for h in harness.ALL:
            h.prepare()
        return 0
    except build.BuildError as e:
        print('build failed:\n%s' % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
