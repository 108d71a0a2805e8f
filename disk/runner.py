"""Executes histories of saving, loading, checkpointing and logging over the simulated disk and judges
them.  Invoked by /verif/run.py with a job on stdin."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import common

SURF = ['irap', 'irap_rotated', 'storm_surface']
SSURF = ['sgri_surface', 'sgri_surface_rotated', 'sgri_surfaces']
VOL = ['storm_binary', 'storm_ascii', 'sgri', 'sgri_storm', 'facies_binary', 'facies_ascii']
SEGY = ['segy_stream', 'segy_cube', 'segy_grid', 'segy_foreign']
RAW = ['raw_stream', 'raw_bigfile']
WELL = ['rms_well', 'las_well']
PTS = ['points_xyz', 'points_roxar', 'points_rms', 'points_active']
PTS2 = ['points_jason', 'las_foreign', 'las_foreign', 'las_open']
LIN = ['wavelet', 'matrix_ascii', 'matrix_binary', 'symmetric_ascii', 'symmetric_binary', 'vector_ascii', 'vector_binary']
OTHER = ['eclipse', 'xml', 'norsar', 'table', 'trend1d', 'trend2d', 'trend3d', 'trend3d_binary', 'wavelet_landmark',
         'wavelet_strata', 'wavelet_syntool']
WRITTEN = ['eclipse', 'crava', 'eclipse_groups', 'xml', 'data_nodal', 'data_continuous', 'cov_grid', 'trend_write']
SETS = {'C06': WRITTEN + SURF * 2 + VOL + SEGY + RAW + WELL + PTS + LIN, 'C07': SURF * 2 + SSURF + VOL, 'C08': SEGY * 2 + RAW,
        'C09': WELL * 3 + PTS * 2 + PTS2 + LIN, 'C12': ['eclipse'] * 5 + ['eclipse_map'] * 2 + ['xml'] * 3 + ['xml_foreign'] * 2 + ['trend1d_plain'] + ['norsar'] * 2 + OTHER}
FIXED_SHAPE = set(LIN) | set(RAW) | {'segy_foreign'}                  # the file does not describe its own shape
COMPANIONS = {f: ['', '_top', '_bot', '_erosion_top', '_erosion_bot'] for f in VOL}
COMPANIONS['sgri'] = ['', '.Sgri']
COMPANIONS['sgri_surface'] = COMPANIONS['sgri_surface_rotated'] = COMPANIONS['sgri_surfaces'] = ['', '.Sgri']
COMPANIONS['norsar'] = ['', '.nwt', '_0.nwl', '_1.nwl']
COMPANIONS['eclipse'] = ['', '', '_par', '_rest']
MANY_FILES = {'norsar', 'eclipse', 'sgri_surface', 'sgri_surface_rotated', 'sgri_surfaces'}                 # several files that do not refer to each other: old and new can mix
LATE_CLOSE = {'segy_stream'}             # closed only by a destructor, which cannot report

LEVELS = [1, 2, 4, 8, 16, 32, 64]


# ---------------------------------------------------------------- generation

def pos(r):
    c = r.random()
    if c < .15:
        return 0.0
    if c < .3:
        return round(1 - 10 ** -r.uniform(1.5, 5), 6)
    return round(r.random(), 4)


# Failing allocations: nomem, one the library makes itself; libmem, one libstdc++ makes for it (a string, a stream buffer); anymem, any.
# Formatted input and output turn the bad_alloc of libmem into the state of a stream, and whether that is seen depends on how
# the code is written rather than on what it does: under libmem only crashes, memory errors, leaked files and foreign
# exceptions are judged (except in the thorough tier, which uses anymem and judges everything).
MEMORY = ['nomem', 'nomem', 'libmem']


def write_faults(r, heavy, fmt=None):
    if r.random() > heavy:
        return [['shortw', 0, 0, 0]] if r.random() < .2 else []
    k = r.choice(['wfail', 'wfail', 'wfail', 'cfail', 'ofail', 'crash', 'crash', 'crashcall', 'shortw', 'eintr', r.choice(MEMORY)])
    err = r.choice([28, 28, 5, 122, 27])
    if k == 'wfail':
        f = [k, pos(r), err, int(r.random() < .3)]
    elif k == 'cfail':
        f = [k, r.choice([0, 0, 0, 1, 2]) + round(r.random() * .999, 4), r.choice([5, 28, 122]), 0]
    elif k == 'ofail':
        f = [k, r.choice([0, 0, 1, 2, 3]), r.choice([13, 24, 28, 5]), 0]
    elif k == 'crash' or k.endswith('mem'):
        f = [k, pos(r), 0, int(k != 'crash' and r.random() < .7)]
    elif k == 'crashcall':
        f = [k, r.randrange(8), 0, 0]
    else:
        f = [k, 0, 4, 0]
    out = [f]
    if r.random() < .15:
        out.append([r.choice(['shortw', 'eintr']), 0, 4, 0])
    return out


def read_faults(r, heavy):
    if r.random() > heavy:
        return []
    k = r.choice(['rfail', 'rfail', 'rfail', 'ofail', 'shortr', 'eintr', r.choice(MEMORY)])
    if k == 'rfail':
        f = [k, pos(r), 5, int(r.random() < .3)]
    elif k == 'ofail':
        f = [k, r.choice([0, 0, 1, 2, 3]), r.choice([13, 24, 5]), 0]
    elif k.endswith('mem'):
        f = [k, pos(r), 0, int(r.random() < .7)]
    else:
        f = [k, 0, 4, 0]
    out = [f]
    if r.random() < .15:
        out.append([r.choice(['shortr', 'eintr']), 0, 4, 0])
    return out


def gen_files(prop, r):
    names = ['a', 'b'][:r.choice([1, 1, 2])]
    fmt = {n: r.choice(SETS[prop]) for n in names}
    base = {n: r.randrange(1, 500) * 64 + r.randrange(64) for n in names}
    ev = []
    for _ in range(r.randint(3, 9)):
        n = r.choice(names)
        f = fmt[n]
        c = r.random()
        if c < .42:
            shape = base[n] if f in FIXED_SHAPE or (f in SEGY and base[n] & 7 in (2, 3, 6, 7)) or r.random() < .5 else r.randrange(1, 500) * 64 + base[n] % 64
            ev.append(['W', f, shape, r.randrange(1 << 30), n, r.randrange(1 << 20), write_faults(r, .55 if prop == 'C06' else .35, f)])
        elif c < .82:
            ev.append(['R', f, n, r.randrange(1 << 20), read_faults(r, .1 if prop == 'C06' else .45)])
        elif c < .90 and prop != 'C06':
            ev.append(['T', n + r.choice(COMPANIONS.get(f, [''])), pos(r), n])
        elif c < .92 and prop != 'C06':
            ev.append(['D', n + r.choice(COMPANIONS.get(f, [''])), n])
        elif c < .96:
            ev.append(['restart'])
        else:
            ev.append(['K'])
    n = r.choice(names)
    ev.append(['R', fmt[n], n, r.randrange(1 << 20), read_faults(r, .3)])
    return ev


def gen_seed(prop, r):
    ev = gen_seed_events(r)
    for e in ev:
        if e[0] in ('SI', 'SW'):
            for f in e[-1]:
                f[0] = 'nomem' if f[0] == 'libmem' else f[0]
    return ev


def gen_seed_events(r):
    names = ['seed1', 'seed2'][:r.choice([1, 1, 2])]
    ev = []
    for n in names:
        if r.random() < .85:
            ev.append(['F', n, '%d%s' % (r.choice([r.randrange(1 << 32), r.randrange(1 << 40), r.randrange(100)]), r.choice(['$', '$', '', '_$', '$$']))])
    if r.random() < .4:
        ev.append(['SX', r.randrange(1 << 33)])
    for _ in range(r.randint(4, 12)):
        n = r.choice(names)
        c = r.random()
        if c < .27:
            ev.append(['SI', n, r.randrange(1 << 20), read_faults(r, .3)])
        elif c < .50:
            ev.append(['SD', r.randint(1, 40) if r.random() < .9 else r.randint(300, 900)])
        elif c < .80:
            ev.append(['SW', r.randrange(1 << 20), write_faults(r, .45)])
        elif c < .84:
            ev.append(['F', n, r.choice(['abc$', '<empty>', '$', '%d$' % r.randrange(1 << 32)])])
        elif c < .87:
            ev.append(['SX', r.randrange(1 << 33)])
        elif c < .89:
            ev.append(['T', n, pos(r), n])
        elif c < .91:
            ev.append(['D', n, n])
        elif c < .97:
            ev.append(['restart'])
        else:
            ev.append(['K'])
    n = r.choice(names)
    ev += [['SI', n, r.randrange(1 << 20), read_faults(r, .2)], ['SD', r.randint(1, 20)]]
    return ev


def level_set(r):
    return r.choice([1, 3, 7, 15, 31, 63, 127, 0, 5, 66])


def gen_log(prop, r):
    ev = []
    k = nf = 0
    if r.random() < .5:
        ev.append(['LB'])
    prefixes = ['WARN:', 'E>', '-']
    for _ in range(r.randint(6, 30)):
        c = r.random()
        if c < .12 and nf < 6:
            nf += 1
            n = 'log%d' % nf
            kind = r.randrange(4)
            if kind == 0:
                a = [level_set(r), r.randrange(2)]
            elif kind == 1:
                v = [level_set(r) for _ in range(r.randint(1, 4))]
                a = [r.randrange(2), len(v)] + v
            elif kind == 2:
                a = [level_set(r), r.randrange(6), r.randrange(2)]
            else:
                a = [level_set(r)]
            f = []
            if r.random() < .1:
                f = [['ofail', 0, r.choice([13, 24, 28]), 0]]
            ev.append(['LF', n, kind, a, f])
        elif c < .16:
            v = [level_set(r) for _ in range(r.randint(1, 4))]
            ev.append(['LS', 0, [level_set(r), r.randrange(2)]] if r.random() < .5 else ['LS', 1, [r.randrange(2), len(v)] + v])
        elif c < .74:
            k += 1
            f = []
            x = r.random()
            if x < .05:
                f = [['wfail', pos(r), r.choice([28, 5]), 0]]
            elif x < .09:
                f = [['crash', pos(r), 0, 0]]
            elif x < .16:
                f = [[r.choice(['shortw', 'eintr']), 0, 4, 0]]
            ln = r.choice([r.randint(5, 60), r.randint(5, 60), r.randint(5, 60), r.randint(800, 1300), r.randint(4000, 12000)])
            how = r.randrange(2)
            ev.append(['LM', how, r.choice(LEVELS), r.choice([-1, -1, 0, 1, 2, 3, 7]), k, ln, f])
        elif c < .78:
            k += 1
            ev.append(['LH', r.choice(LEVELS), k])
        elif c < .82:
            ev.append(['LP', r.choice(LEVELS), r.choice(prefixes)])
        elif c < .85:
            ev.append(['LE'])
        elif c < .88:
            ev.append(['LB'])
        elif c < .90:
            ev.append(['LX'])
        elif c < .93:
            ev.append(['LR', r.randrange(6)])
        elif c < .97:
            ev.append(['LN', r.choice(LEVELS)])
        elif c < .98:
            ev.append(['K'])
        else:
            ev.append(['LM', 0, r.choice(LEVELS), -1, 900 + k, 20000, []])
    return ev


def generate(prop, r):
    return gen_seed(prop, r) if prop == 'C10' else gen_log(prop, r) if prop == 'C11' else gen_files(prop, r)


def simplify(e):
    """simpler variants of one event"""
    out = []
    if e[0] in ('W', 'R', 'SI', 'SW', 'LM', 'LF') and e[-1]:
        out += [e[:-1] + [e[-1][:i] + e[-1][i + 1:]] for i in range(len(e[-1]))]
    if e[0] == 'LM' and e[5] > 20:
        out.append(e[:5] + [20] + e[6:])
    if e[0] == 'SD' and e[1] > 1:
        out.append(['SD', 1])
    return out


# ---------------------------------------------------------------- execution

class Stats:
    def __init__(self):
        self.c, self.states = {}, set()

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n


class Server:
    def __init__(self, exe):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0')
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  errors='replace', env=env)

    def directory(self, d):
        self.p.stdin.write('DIR %s\n' % d)

    def life(self, ops):
        self.p.stdin.write('LIFE %d\n%s\n' % (len(ops), '\n'.join(ops)) if ops else 'LIFE 0\n')
        self.p.stdin.flush()
        lines = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise RuntimeError('the simulation process ended')
            l = l.rstrip('\n')
            if l.startswith('END '):
                a = l.split()
                return lines, int(a[1]), int(a[2]), a[3] == '1'
            lines.append(l)


server = None


def flt(fs):
    return '%d %s' % (len(fs), ' '.join('%s:%r:%d:%d' % (f[0], float(f[1]), f[2], f[3]) for f in fs))


class Violation(Exception):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text


def death(code, sig, runaway):
    if runaway:
        return 'runaway', 'it allocated memory without bound'
    if sig == 24 or sig == 9:
        return 'hang', 'it did not come to an end'
    if sig:
        return 'signal', 'the process was ended by signal %d' % sig
    if code == 77:
        return 'memory', 'it accessed memory outside its objects (AddressSanitizer)'
    if code == 98 or code == 99:
        return None
    return 'died', 'the process ended with status %d' % code


def execute(prop, trace, scratch, stats=None):
    """-> (hash of the history, violation or None)"""
    server.directory(scratch)
    judge = {'C10': SeedJudge, 'C11': LogJudge}.get(prop, FileJudge)(prop, trace, scratch, stats)
    hist = []
    try:
        i = 0
        while i < len(trace):
            if trace[i][0] == 'restart':
                i += 1
                continue
            j = i
            while j < len(trace) and trace[j][0] != 'restart':
                j += 1
            judge.new_life()
            lines, code, sig, run = server.life([judge.op(k) for k in range(i, j)])
            hist.append([lines, code, sig, run])
            alive = code == 0 and sig == 0
            groups = []
            for l in lines:
                if l == 'B':
                    groups.append([])
                elif l != 'Z':
                    groups[-1].append(l)
            for g, ls in enumerate(groups):
                finished = alive or g < len(groups) - 1
                if stats is not None:
                    stats.add('operations')
                judge.check(i + g, ls, finished, None if finished else death(code, sig, run))
            if alive and len(groups) != j - i:
                raise RuntimeError('%d of %d operations reported' % (len(groups), j - i))
            if alive:
                judge.end_life()
            i += len(groups)
            if not groups:
                raise RuntimeError('the life did not start: %r' % [lines, code, sig])
    except Violation as v:
        hist.append(['violation', v.cls])
        return common.digest(json.dumps(hist, sort_keys=True)), {'class': v.cls, 'text': v.text}
    return common.digest(json.dumps(hist, sort_keys=True)), None


def count_fired(stats, fired, state):
    if stats is None:
        return
    if fired != '-':
        for f in fired.split(','):
            k, n = f.split(':')
            stats.add('fault_' + k, int(n))
    stats.states.add(common.digest(state)[:12])


class FileJudge:
    def __init__(self, prop, trace, scratch, stats):
        self.prop, self.trace, self.stats = prop, trace, stats
        self.w = {}
        for k, e in enumerate(trace):
            if e[0] == 'W':
                self.w.setdefault(e[4], []).append(k)
        self.st = {}

    def state(self, n):
        return self.st.setdefault(n, {'cands': [], 'pristine': True, 'unknown': False, 'exists': False})

    def new_life(self):
        pass

    def end_life(self):
        pass

    def specs(self, name, k):
        return [x for x in self.w.get(name, []) if x < k]

    def op(self, k):
        e = self.trace[k]
        if e[0] == 'W':
            return 'W %s %d %d %s %d %s' % (e[1], e[2], e[3], e[4], e[5], flt(e[6]))
        if e[0] == 'R':
            sp = self.specs(e[2], k)
            c = ' '.join('%d %d' % (self.trace[x][2], self.trace[x][3]) for x in sp)
            shape = self.trace[sp[-1]][2] if sp else 8
            return 'R %s %s %d %d %d %s %s' % (e[1], e[2], shape, e[3], len(sp), c, flt(e[4]))
        if e[0] == 'T':
            return 'T %s %r' % (e[1], float(e[2]))
        if e[0] == 'D':
            return 'D %s' % e[1]
        return e[0]

    def check(self, k, ls, finished, d):
        e = self.trace[k]
        if e[0] == 'W':
            self.check_write(k, e, ls, finished, d)
        elif e[0] == 'R':
            self.check_read(k, e, ls, finished, d)
        elif e[0] in 'TD' and ls and ' OK ' in ls[0]:
            s = self.state(e[-1])
            s['pristine'] = False
            if e[0] == 'D' and e[1] == e[2] and e[1] in ('a', 'b'):
                self.st[e[-1]] = {'cands': [], 'pristine': True, 'unknown': False, 'exists': False, 'companions': bool(s['cands']) or s.get('companions', False)}
            if self.stats is not None:
                self.stats.add('fault_truncate' if e[0] == 'T' else 'fault_delete')
        elif e[0] == 'K' and self.stats is not None:
            self.stats.add('fault_kill')

    def check_write(self, k, e, ls, finished, d):
        s = self.state(e[4])
        mine = self.prop == 'C06'
        where = 'operation %d, writing %s file' % (k, e[1])
        faults = '+'.join(f[0] for f in e[6]) or '-'
        if not finished:
            if d:
                if mine:
                    raise Violation('write-' + d[0], '%s: %s' % (where, d[1]))
                s['unknown'] = True
            s['cands'].append(k)
            s['pristine'] = False
            s['exists'] = True
            count_fired(self.stats, 'crash:1', 'W %s %s crash %.1f' % (e[1], faults, e[6][0][1] if e[6] else 0))
            return
        a = ls[-1].split(' ', 5)
        what, fired, harm, fds, text = a[1], a[2], a[3] == '1', int(a[4]), a[5]
        lenient = 'libmem' in fired
        count_fired(self.stats, fired, 'W %s %s %s %s %.1f' % (e[1], faults, fired.split(':')[0], what, e[6][0][1] if e[6] else 0))
        if what == 'REFEXC':
            raise Violation('write-refuses', '%s: it fails without any fault: %s' % (where, text))
        if mine:
            if what == 'OKDIFF' and not (e[1] in LATE_CLOSE and harm) and not lenient:
                raise Violation('silent-loss', '%s: it reported success, but the file is not what it should be (%s; faults: %s)' % (where, text, fired))
            if what == 'NONSTD':
                raise Violation('write-nonstd', '%s: something that is no std::exception was thrown (faults: %s)' % (where, fired))
            if what == 'EXC' and not harm:
                raise Violation('write-refuses', '%s: it failed although nothing harmful happened (faults: %s): %s' % (where, fired, text))
            if fds:
                raise Violation('write-descriptors', '%s: it left %d file(s) open' % (where, fds))
        if what == 'OK':
            self.st[e[4]] = {'cands': [k], 'pristine': True, 'unknown': False, 'exists': True}
        elif what == 'OKDIFF':
            self.st[e[4]] = {'cands': [k], 'pristine': False, 'unknown': True, 'exists': True}
        else:
            s['cands'].append(k)
            s['pristine'] = False
            s['exists'] = True
            if lenient or any(f[0] == 'wfail' and f[3] for f in e[6]):
                s['unknown'] = True

    def check_read(self, k, e, ls, finished, d):
        s = self.state(e[2])
        fmt = e[1]
        where = 'operation %d, reading %s file' % (k, fmt)
        res = [l for l in ls if l != 'b']
        sp = self.specs(e[2], k)
        mine = self.prop != 'C06' or s['pristine']
        for l in res:
            a = l.split(' ', 6)
            tag, what, lst, fired, harm, fds, text = a[0], a[1], a[2], a[3], a[4] == '1', int(a[5]), a[6] if len(a) > 6 else ''
            count_fired(self.stats, fired, 'R %s %s %s %s %s %d %.1f' % (fmt, fired.split(':')[0], what, lst.split(',')[-1], s['pristine'], len(s['cands']), e[4][0][1] if e[4] else 0))
            info = 'file %s, faults: %s' % ('as written' if s['pristine'] else 'damaged by an earlier fault', fired)
            if not mine:
                continue
            if what == 'NONSTD':
                raise Violation('read-nonstd', '%s: something that is no std::exception was thrown (%s)' % (where, info))
            if fds:
                raise Violation('read-descriptors', '%s: it left %d file(s) open (%s)' % (where, fds, info))
            if 'libmem' in fired:
                continue
            if not s['exists']:
                if what == 'GOT':
                    raise Violation('read-invents', '%s: it read something although there is no file' % where)
                continue
            if s['unknown'] or (fmt in MANY_FILES and len(s['cands']) + s.get('companions', False) > 1):
                continue
            if what == 'EXC':
                if s['pristine'] and not harm:
                    raise Violation('read-refuses', '%s: it failed (%s): %s' % (where, info, text))
                continue
            verdict = {x: v for x, v in zip(sp, lst.split(','))}
            got = [verdict[c] for c in s['cands']]
            if 'EQ' in got:
                continue
            if not s['pristine'] and ('TAIL' in got or 'PREFIX' in got):
                continue
            raise Violation('read-wrong', '%s: what was read is not what was written (%s): %s' % (where, info, text))
        if not finished:
            if not mine:
                return
            if d:
                last = 'with faults %s' % '+'.join(f[0] for f in e[4]) if res else 'without faults'
                raise Violation('read-' + d[0], '%s: %s (%s, file %s)' % (where, d[1], last, 'as written' if s['pristine'] else 'damaged by an earlier fault'))


class SeedJudge:
    def __init__(self, prop, trace, scratch, stats):
        self.trace, self.stats = trace, stats
        self.files = {}
        self.cur = None              # the seed file in use by this process

    def f(self, n):
        return self.files.setdefault(n, {'cands': set(), 'pristine': True, 'exists': False, 'torn': False})

    def new_life(self):
        self.cur = None

    def end_life(self):
        pass

    def op(self, k):
        e = self.trace[k]
        if e[0] == 'F':
            return 'F %s %s' % (e[1], e[2])
        if e[0] == 'SX':
            return 'SX 1 0 0 0 %d' % e[1]
        if e[0] == 'SI':
            return 'SI %d 0 11 %s %s' % (e[2], flt(e[3]), e[1])
        if e[0] == 'SD':
            return 'SD 1 0 0 0 %d' % e[1]
        if e[0] == 'SW':
            # which file that is depends on what happened before: the last SI of this life that succeeded
            return 'SW %d 11 0 %s -' % (e[1], flt(e[2]))
        if e[0] == 'T':
            return 'T %s %r' % (e[1], float(e[2]))
        if e[0] == 'D':
            return 'D %s' % e[1]
        return e[0]

    def check(self, k, ls, finished, d):
        e = self.trace[k]
        if e[0] == 'K':
            if self.stats is not None:
                self.stats.add('fault_kill')
            return
        where = 'operation %d (%s)' % (k, e[0])
        if d:
            raise Violation('seed-' + d[0], '%s: %s' % (where, d[1]))
        v = [int(l.split()[1]) for l in ls if l.startswith('V ')]
        ls = [l for l in ls if not l.startswith('V ')]
        if not finished:
            count_fired(self.stats, 'crash:1', '%s crash %s' % (e[0], e[-1]))
            if e[0] == 'SW' and self.cur:
                f = self.f(self.cur)
                f['cands'] = set(f['cands']) | set(v)
                f['pristine'] = False
            return
        a = ls[-1].split(' ', 5)
        what, fired, harm, fds = a[1], a[2], a[3] == '1', int(a[4])
        info, _, text = (a[5] if len(a) > 5 else '').partition(' | ')
        count_fired(self.stats, fired, '%s %s %s %s %s' % (e[0], fired.split(':')[0], what, info.split()[0] if e[0] in ('SX', 'SD') else '', e[-1] if e[0] in ('SI', 'SW') else ''))
        if e[0] == 'F':
            t = e[2].replace('$', ' ').replace('_', ' ').replace('<empty>', ' ').split()
            ok = bool(t) and t[0].isdigit()
            self.files[e[1]] = {'cands': {int(t[0])} if ok else set(), 'pristine': True, 'exists': True, 'bad': not ok}
            return
        if e[0] in 'TD':
            if what == 'OK':
                if e[0] == 'D':
                    self.files[e[1]] = {'cands': set(), 'pristine': True, 'exists': False}
                else:
                    self.f(e[1])['unknown'] = True     # a seed cut short by somebody else is another seed
                if self.stats is not None:
                    self.stats.add('fault_truncate' if e[0] == 'T' else 'fault_delete')
            return
        if what == 'NONSTD':
            raise Violation('seed-nonstd', '%s: something that is no std::exception was thrown' % where)
        if fds:
            raise Violation('seed-descriptors', '%s left %d file(s) open' % (where, fds))
        if e[0] == 'SX':
            if what != 'OK' or info != 'same':
                raise Violation('seed-set', '%s: the generator reports another start seed: %s %s' % (where, what, info))
        elif e[0] == 'SD':
            if what != 'OK' or info not in ('same', '-'):
                raise Violation('seed-stream', '%s: the numbers drawn are not those that follow from the seed (%s %s)' % (where, what, text))
        elif e[0] == 'SI':
            f = self.f(e[1])
            if what == 'OK':
                got = int(info.split()[0])
                if not f['exists'] or f.get('bad'):
                    raise Violation('seed-invents', '%s: it took seed %d from a file that holds none' % (where, got))
                if not f.get('unknown') and got not in f['cands']:
                    raise Violation('seed-wrong', '%s: it continued from seed %d, but the file was only ever given %s' % (where, got, sorted(f['cands'])))
                self.cur = e[1]
            else:
                if info.startswith('other'):
                    raise Violation('seed-half', '%s: reading the seed file failed, and yet the start seed changed: %s' % (where, info))
                if f['exists'] and not f.get('bad') and not f.get('unknown') and not harm:
                    raise Violation('seed-refuses', '%s: it refused a good seed file: %s (faults: %s)' % (where, text, fired))
        elif e[0] == 'SW':
            if self.cur is None:
                if what != 'OK':
                    raise Violation('seed-refuses', '%s: failed without a seed file in use: %s' % (where, text))
                return
            f = self.f(self.cur)
            if what == 'OK':
                self.files[self.cur] = {'cands': set(v), 'pristine': True, 'exists': True}
            else:
                if not harm:
                    raise Violation('seed-refuses', '%s: failed although nothing harmful happened: %s (faults: %s)' % (where, text, fired))
                f['cands'] = set(f['cands']) | set(v)
                f['pristine'] = False


class LogJudge:
    """the log model: which file must hold which text"""
    def __init__(self, prop, trace, scratch, stats):
        self.trace, self.stats, self.scratch = trace, stats, scratch
        self.new_life()

    def new_life(self):
        self.streams = []            # [name, general level, phase levels] or screen
        self.files = {}              # name -> {'text', 'open', 'failed', 'sure'}
        self.buffer = None
        self.prefix = {l: '' for l in LEVELS}
        self.count = {l: 0 for l in LEVELS}
        self.screen = ''
        self.screen_maybe = ''
        try:
            os.unlink(os.path.join(self.scratch, 'screen'))
        except FileNotFoundError:
            pass

    @staticmethod
    def text(i, n):
        s = 'm%d:' % i
        if i % 11 == 0:
            return ''
        if i % 5 == 0:
            s += '100% %s %d\n\t'
        s += ''.join(chr(97 + (i + j) % 26) for j in range(len(s), max(n - 1, len(s))))
        return s if i % 3 == 0 else s + '\n'

    def op(self, k):
        e = self.trace[k]
        if e[0] == 'LF':
            return 'LF 1 0 0 %s %s %d %s' % (flt(e[4]), e[1], e[2], ' '.join(map(str, e[3])))
        if e[0] == 'LS':
            return 'LS 1 0 0 0 %d %s' % (e[1], ' '.join(map(str, e[2])))
        if e[0] == 'LM':
            return 'LM %d %d 0 %s %d %d %d %d %d' % (e[4], e[5], flt(e[6]), e[1], e[2], e[3], e[4], e[5])
        if e[0] == 'LH':
            return 'LH 1 0 0 0 %d %d' % (e[1], e[2])
        if e[0] == 'LP':
            return 'LP 1 0 0 0 %d %s' % (e[1], e[2])
        if e[0] == 'LR':
            return 'LR 1 0 0 0 %s' % self.added_name(k, e[1])
        if e[0] == 'LN':
            return 'LN 1 0 0 0 %d' % e[1]
        if e[0] in ('LB', 'LE', 'LX'):
            return '%s 1 0 0 0' % e[0]
        return e[0]

    def added_name(self, k, i):
        """the i-th stream added by hand before event k, if it can still be there"""
        names = []
        for x in range(k - 1, -1, -1):
            e = self.trace[x]
            if e[0] in ('LX', 'K', 'restart') or (e[0] == 'LM' and any(f[0] == 'crash' for f in e[6])):
                break
            if e[0] == 'LR':
                return '-'
            if e[0] == 'LF' and e[2] == 3 and not e[4]:
                names.append(e[1])
        return names[i % len(names)] if names else '-'

    @staticmethod
    def stream(kind, a):
        """-> general level, levels per phase"""
        if kind == 0:
            return (a[0], []) if a[1] else (a[0], [0, a[0]])
        if kind == 1:
            v = a[2:]
            g = 0
            for x in v:
                g |= x
            return (0 if a[0] else g), v
        if kind == 2:
            v = [0] * 1000
            v[a[1]] = a[0]
            return (0 if a[2] else a[0]), v
        return a[0], []

    @staticmethod
    def wanted(s, level, phase):
        if phase < 0 or phase >= len(s['phases']):
            return bool(s['general'] & level)
        return bool(s['phases'][phase] & level)

    def emit(self, s, level, phase, text, fault, finished):
        if not self.wanted(s, level, phase):
            return
        if s['name'] is None:
            if finished:
                self.screen += text
            else:
                self.screen_maybe += text
            return
        f = self.files[s['name']]
        if f['failed']:
            return
        if fault:
            f['failed'] = True
            f['tail'] = True
            return
        if not finished:
            f['partial'] = f.get('partial', '') + text
            return
        f['text'] += text

    def message(self, level, phase, text, fault=False, finished=True):
        t = self.prefix[level] + text
        self.count[level] += 1
        for s in self.streams:
            self.emit(s, level, phase, t, fault, finished)
        if self.buffer is not None and finished:
            self.buffer.append((level, phase, t))

    def attach(self, s):
        for level, phase, t in self.buffer or []:
            self.emit(s, level, phase, t, False, True)

    def compare(self, where):
        for n, f in self.files.items():
            p = os.path.join(self.scratch, n)
            try:
                got = open(p, 'rb').read().decode('latin1')
            except FileNotFoundError:
                raise Violation('log-missing', '%s: log file %s does not exist' % (where, n))
            want = f['text']
            if f['failed']:
                ok = got.startswith(want)
            elif f.get('partial'):
                ok = got.startswith(want) and (want + f['partial']).startswith(got)
            else:
                ok = got == want
            if not ok:
                i = 0
                while i < min(len(got), len(want)) and got[i] == want[i]:
                    i += 1
                raise Violation('log-wrong', '%s: log file %s differs from the messages sent to it at byte %d (%d bytes instead of %d): ...%r instead of ...%r'
                                % (where, n, i, len(got), len(want), got[i:i + 30], want[i:i + 30]))
        if self.screen is not None:
            try:
                got = open(os.path.join(self.scratch, 'screen'), 'rb').read().decode('latin1')
            except FileNotFoundError:
                got = ''
            if got not in (self.screen, self.screen + self.screen_maybe):
                raise Violation('log-screen', '%s: the screen shows %r..., the messages sent to it are %r...' % (where, got[-60:], self.screen[-60:]))

    def check(self, k, ls, finished, d):
        e = self.trace[k]
        where = 'operation %d (%s)' % (k, e[0])
        if d:
            raise Violation('log-' + d[0], '%s: %s' % (where, d[1]))
        if e[0] == 'K':
            if self.stats is not None:
                self.stats.add('fault_kill')
            self.compare('after the process was killed (operation %d)' % k)
            self.forget()
            return
        what, fired, harm, fds, info, text = 'OK', '-', False, 0, '-', ''
        if finished:
            a = ls[-1].split(' ', 5)
            what, fired, harm, fds = a[1], a[2], a[3] == '1', int(a[4])
            info, _, text = (a[5] if len(a) > 5 else '').partition(' | ')
        count_fired(self.stats, fired if finished else 'crash:1', '%s %s %s %d %d %s' % (e[0], fired.split(':')[0], what, len(self.streams), self.buffer is not None, e[2] if e[0] in ('LM', 'LF') else ''))
        if what == 'NONSTD' or (what == 'EXC' and not (e[0] == 'LF' and harm)):
            raise Violation('log-throws', '%s: it threw (faults: %s): %s' % (where, fired, text))
        if e[0] == 'LF':
            if what == 'OK':
                if harm:
                    raise Violation('log-open', '%s: opening the log file failed, but this was not reported' % where)
                g, v = self.stream(e[2], e[3])
                s = {'name': e[1], 'general': g, 'phases': v}
                self.files[e[1]] = {'text': '', 'failed': False}
                self.streams.append(s)
                self.attach(s)
                if fds != 1:
                    raise Violation('log-descriptors', '%s changed the number of open files by %d' % (where, fds))
            elif fds:
                raise Violation('log-descriptors', '%s failed and left %d file(s) open' % (where, fds))
        elif e[0] == 'LS':
            g, v = self.stream(0 if e[1] == 0 else 1, e[2])
            s = {'name': None, 'general': g, 'phases': v}
            old = [i for i, x in enumerate(self.streams) if x['name'] is None]
            if old:
                self.streams[old[0]] = s
            else:
                self.streams.append(s)
        elif e[0] == 'LM':
            self.message(e[2], e[3], self.text(e[4], e[5]), harm, finished)
            if not finished:
                self.compare('after the process was killed in operation %d' % k)
                self.forget()
        elif e[0] == 'LH':
            t = 'header%d' % e[2]
            blank = max(0, 100 - len(t) - 10)
            b = ' ' * (blank // 2)
            r = '*' * 100
            for x in ('\n' + r + '\n', '*****' + b + t + b + (' ' if blank % 2 else '') + '*****\n', r + '\n'):
                self.message(e[1], -1, x)
        elif e[0] == 'LP':
            self.prefix[e[1]] = e[2]
        elif e[0] == 'LB':
            self.buffer = []
        elif e[0] == 'LE':
            self.buffer = None
        elif e[0] == 'LX':
            if fds != -sum(1 for s in self.streams if s['name']):
                raise Violation('log-descriptors', '%s: closing %d log files changed the number of open files by %d' % (where, sum(1 for s in self.streams if s['name']), fds))
            self.streams = []
            self.buffer = None
        elif e[0] == 'LR':
            n = self.added_name(k, e[1])
            self.streams = [s for s in self.streams if s['name'] != n]
        elif e[0] == 'LN':
            if info != str(self.count[e[1]]):
                raise Violation('log-count', '%s: %s messages counted on level %d, %d were sent' % (where, info, e[1], self.count[e[1]]))

    def forget(self):
        pass

    def end_life(self):
        self.compare('when the process ended')


# ---------------------------------------------------------------- jobs

def one(prop, trace, stats=None):
    scratch = tempfile.mkdtemp(prefix='disk', dir=os.environ['VERIF_SCRATCH'])
    try:
        return execute(prop, trace, scratch, stats)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def batch(job):
    prop, seed = job['prop'], job['seed']
    stats = Stats()
    if job.get('tier') == 'thorough':
        MEMORY[:] = ['anymem', 'nomem']
    t0 = time.time()
    n = 0
    vio = None
    for i in range(job['first'], job['last'], job['stride']):
        if time.time() - t0 > job['budget']:
            break
        trace = generate(prop, common.run_rng(seed, prop, i))
        h, v = one(prop, trace, stats)
        n += 1
        if job.get('recheck') and i % job['recheck'] == 0:
            h2, v2 = one(prop, trace)
            stats.add('determinism_rechecks')
            if h2 != h:
                return {'error': 'run %d is not deterministic' % i}
        if v:
            vio = {'index': i, 'trace': trace, 'violation': v, 'hash': h}
            break
    sample = generate(prop, common.run_rng(seed, prop, job['first']))
    return {'runs': n, 'stats': stats.c, 'states': sorted(stats.states), 'vio': vio,
            'wall': time.time() - t0, 'sample': sample[:6] if job['first'] == 0 else None}


def minimise(job):
    prop, trace, cls = job['prop'], job['trace'], job['class']

    def fails(t):
        _, v = one(prop, t)
        return v is not None and v['class'] == cls

    t0 = time.time()
    cur = common.ddmin(trace, lambda t: time.time() - t0 < 90 and fails(t), 300)
    changed = True
    while changed and time.time() - t0 < 120:
        changed = False
        for i in range(len(cur)):
            for e in simplify(cur[i]):
                cand = cur[:i] + [e] + cur[i + 1:]
                if fails(cand):
                    cur, changed = cand, True
                    break
    h1, v1 = one(prop, cur)
    h2, v2 = one(prop, cur)
    return {'trace': cur, 'hash': h1, 'same': h1 == h2 and v1 == v2, 'violation': v1}


def main():
    global server
    server = Server(os.environ['VERIF_DISKSIM'])
    job = json.load(sys.stdin)
    if job['mode'] == 'batch':
        r = batch(job)
    elif job['mode'] == 'minimise':
        r = minimise(job)
    else:
        h, v = one(job['prop'], job['trace'])
        r = {'hash': h, 'violation': v}
    sys.stdout.write('\n@@' + json.dumps(r) + '\n')


if __name__ == '__main__':
    main()
