"""Trace generation: a pure function of the run's PRNG (swarm style)."""
import math
import refmodel as R

BAD_NAMES = ['seed_negative', 'seed_text', 'seed_float', 'seed_huge', 'sim_no_args', 'sim_text_vario',
             'sim_negative_n', 'sim_unknown_kw', 'adv_bad_pad', 'vario_no_range', 'size_text', 'corr_none',
             'vario_text_range']


def vario(r):
    t = r.choice(R.TYPES)
    round_ = r.random() < 0.35
    main = r.choice([10.0, 25.0, 50.0, 100.0, 250.0, 1000.0]) if round_ else 10 ** r.uniform(-0.5, 3)
    s = {'type': t, 'main': main}
    if r.random() < 0.15:
        s['type'] = r.choice([t.upper(), t.capitalize()])
    elif r.random() < 0.2:
        s['enum'] = 1
    for k, pr in (('perp_range', 0.6), ('depth_range', 0.6)):
        if r.random() < pr:
            s[k] = main * (r.choice([0.1, 0.2, 0.5, 1.0, 2.0]) if round_ else 10 ** r.uniform(-1, 0.4))
    if r.random() < 0.5:
        s['azimuth'] = r.choice([0.0, 30.0, 45.0, 90.0, 180.0, -60.0]) if round_ else r.uniform(-180, 360)
    if r.random() < 0.4:
        s['dip'] = r.choice([0.0, 15.0, 45.0, -30.0]) if round_ else r.uniform(-90, 90)
    if t == 'general_exponential' and r.random() < 0.9:
        s['power'] = r.choice([1.0, 1.5, 1.8]) if round_ else r.uniform(0.8, 2.0)
    return s


def _mk(s):
    return R.Vario(s['type'], s['main'], s.get('perp_range', -1.0), s.get('depth_range', -1.0),
                   s.get('azimuth', 0.0), s.get('dip', 0.0), s.get('power', 1.5))


def _fragile(v, n, rng, step):
    # padding sits on a rounding boundary: the documented rule does not decide it
    for x in (v.ratio() * rng / step - n, rng / step):
        f = abs(x - round(x))
        if 0 < f < 1e-7 or (f == 0 and v.kind not in ('constant', 'matern32') and x == v.ratio() * rng / step - n):
            return True
    return False


def sim_args(r, spec, cap, dims):
    """(args, adv or None) whose padded grid has at most cap cells"""
    v = _mk(spec)
    for _ in range(60):
        dim = r.choice(dims)
        a = []
        for i in range(dim):
            hi = ((400, 60, 16) if cap < 10 ** 6 else (300000, 900, 110))[dim - 1]
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 16]) if r.random() < 0.25 else r.randint(1, hi)
            rng = v.r[i]
            step = rng * (r.choice([0.05, 0.1, 0.2, 0.25, 0.5, 1.0]) if r.random() < 0.3 else 10 ** r.uniform(-1.7, 0.5))
            a += [n, step]
        if dim >= 2 and a[2] < 2:
            a[2] = 2
        if dim >= 3 and a[4] < 2:
            a[4] = 2
        # degenerate spellings of lower dimensions
        if dim == 1 and r.random() < 0.15:
            a += [1, a[1]]
            if r.random() < 0.4:
                a += [r.randint(1, 5), a[1]]
        elif dim == 2 and r.random() < 0.15:
            a += [1, a[3]]
        adv = None
        if r.random() < 0.5:
            adv = {}
            for c in 'xyz'[:dim]:
                if r.random() < 0.6:
                    adv['pad' + c] = r.choice([0, 1, 2]) if r.random() < 0.3 else r.randint(0, (200, 40, 14)[dim - 1])
                if r.random() < 0.3:
                    adv['s' + c] = r.choice([0.01, 0.5, 1.0]) if r.random() < 0.3 else r.uniform(0.001, 1.2)
        ra = [v.r[0]] if dim == 1 else [max(v.r[0], v.r[1])] * 2 if dim == 2 else [max(v.r[0], v.r[1])] * 2 + [v.r[2]]
        if dim > 1 and v.azi == 0.0:
            ra[1] = v.r[1]
        if any(_fragile(v, a[2 * i], ra[i], a[2 * i + 1]) for i in range(dim)):
            continue
        sizes = R.paddings(v, *a[:2 * dim])
        tot = 1
        for i, c in enumerate('xyz'[:dim]):
            pad = sizes[i]
            if adv and adv.get('pad' + c, -1) >= 0:
                pad = adv['pad' + c]
            if a[2 * i] + pad > max(20000, cap):
                tot = 10 ** 9
                break
            tot *= R.smooth_size(a[2 * i] + pad, dim > 1 and i == 0)
        if tot <= cap and all(max(1, a[2 * i]) + sizes[i] < 10 ** 6 for i in range(dim)):
            return a, adv, dim
    return [4, v.r[0]], {'padx': 4}, 1


def size_args(r, spec):
    v = _mk(spec)
    for _ in range(50):
        dim = r.choice([1, 2, 3])
        a = []
        for i in range(dim):
            a += [r.randint(1 if i == 0 else 2, 500), v.r[i] * 10 ** r.uniform(-2, 0.5)]
        ra = [v.r[0]] if dim == 1 else [max(v.r[0], v.r[1])] * 2 if dim == 2 else [max(v.r[0], v.r[1])] * 2 + [v.r[2]]
        if dim > 1 and v.azi == 0.0:
            ra[1] = v.r[1]
        if not any(_fragile(v, a[2 * i], ra[i], a[2 * i + 1]) for i in range(dim)):
            return a
    return [10, v.r[0] * 0.3371]


def seed_value(r):
    x = r.random()
    if x < 0.1:
        return r.choice([0, 1, 2, 123, 1323, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
    if x < 0.2:
        return r.getrandbits(63)
    return r.getrandbits(32)


class Clock:
    def __init__(self, r, cfg):
        self.r, self.cfg = r, cfg
        self.t = r.choice([0, 1, 10 ** 9, 1700000000, 2 ** 31 - 3, 2 ** 32 - 2]) if r.random() < 0.3 else r.randint(10 ** 8, 2 * 10 ** 9)
        self.skew = {}

    def now(self, p):
        r = self.r
        jump = None
        x = r.random()
        if x < self.cfg['tick']:
            self.t += r.choice([0, 1, 1, 2, 3600])
        if self.cfg['jumps'] and r.random() < 0.1:
            jump = r.choice(['back', 'forward'])
            self.t += -r.choice([1, 5, 86400]) if jump == 'back' else r.choice([60, 86400, 10 ** 7])
            self.t = max(0, self.t)
        if p not in self.skew:
            self.skew[p] = r.choice([-2, -1, 1, 2, 3600]) if self.cfg['skew'] and r.random() < 0.4 else 0
        step = r.choice([0, 0, 0, 10 ** 6, 4 * 10 ** 8]) if self.cfg['step'] else 0
        return [max(0, self.t + self.skew[p]), r.randrange(10 ** 9), step], jump


def config(prop, r):
    """what this run exercises"""
    c = {'events': r.randint(6, 40), 'cap': r.choice([600, 3000, 12000]), 'procs': 1, 'unseeded': False,
         'dims': r.choice([[1], [2], [3], [1, 2], [1, 1, 2, 2, 3], [1, 2, 3]]),
         'crash': False, 'fork': False, 'bad': r.random() < 0.5, 'fill': r.random() < 0.8,
         'tick': r.choice([0.0, 0.3, 1.0]), 'jumps': r.random() < 0.4, 'skew': r.random() < 0.4,
         'alike': r.choice([0.0, 0.3, 0.7]),
         'step': r.random() < 0.3, 'alloc': 0.0, 'kinds': 0, 'reps': 0.0,
         'w': {'seed': r.uniform(0.3, 2), 'get_seed': r.uniform(0.1, 1), 'sim': r.uniform(3, 8),
               'corr': r.uniform(0, 1.5), 'size': r.uniform(0, 1.5), 'vario': r.uniform(0.2, 1.5),
               'drop': r.uniform(0, 0.5), 'quote': r.uniform(0, 0.2)}}
    if prop == 'C01':
        c['procs'] = r.choice([1, 1, 1, 2, 3])
        c['crash'] = r.random() < 0.3
        c['fork'] = r.random() < 0.3
        if r.random() < 0.1:
            c['cap'] = 60000
            c['events'] = r.randint(4, 12)
        x = r.random()
        if x < 0.012:                       # grids of the size used in practice
            c['cap'] = 1500000
            c['events'] = r.randint(3, 5)
            c['procs'], c['crash'], c['fork'], c['alike'] = 1, False, False, 0.0
        elif x < 0.03:                      # long lives
            c['cap'] = 300
            c['events'] = r.randint(150, 400)
    elif prop == 'C02':
        c['unseeded'] = True
        c['procs'] = r.choice([1, 2, 2, 3, 4])
        c['events'] = r.randint(4, 20)
        c['cap'] = 600
        c['crash'] = r.random() < 0.7
        c['fork'] = r.random() < 0.4
        c['w']['seed'] = r.choice([0.0, 0.0, 0.3])
        c['w']['get_seed'] = r.uniform(0.5, 2)
    elif prop == 'C04':
        c['alloc'] = r.choice([0.2, 0.5, 0.9])
        c['kinds'] = r.choice([1, 2, 4, 7, 7, 6])
        c['unseeded'] = r.random() < 0.3
        c['events'] = r.randint(6, 30)
        c['cap'] = r.choice([300, 2000])
        c['fork'] = r.random() < 0.1
    elif prop == 'C05':
        c['reps'] = 0.7
        c['events'] = r.randint(3, 8)
        c['cap'] = r.choice([200, 1000])
        c['alloc'] = r.choice([0.0, 0.0, 0.5, 0.9])
        c['kinds'] = r.choice([1, 2, 4, 7])
        c['unseeded'] = r.random() < 0.3
    return c


def generate(prop, r):
    c = config(prop, r)
    tr = []
    clock = Clock(r, c)
    alive, varios, seeded, nid = {}, {}, {}, [0]
    seen, grids = [], []

    def call(p, op, fault=None, reps=1):
        now, jump = clock.now(p)
        ev = {'t': 'call', 'p': p, 'op': op, 'clock': now, 'ent': r.getrandbits(60),
              'fill': [r.choice([1, 2, 3, 4]) if c['fill'] else 0, r.getrandbits(60)]}
        if jump:
            ev['jump'] = jump
        if fault:
            ev['fault'] = fault
        if reps > 1:
            ev['reps'] = reps
        tr.append(ev)

    def fault():
        if c['alloc'] and r.random() < c['alloc']:
            hi = {1: 60, 2: 8, 4: 4}.get(c['kinds'], 60)
            return {'kinds': c['kinds'], 'at': r.randint(1, hi), 'len': r.choice([1, 1, 1, 2, 5, 10 ** 6])}
        return None

    def new_vario(p):
        nid[0] += 1
        s = vario(r)
        if seen and r.random() < c['alike']:
            # like an earlier one in all but one respect
            s = dict(r.choice(seen))
            k = r.choice(['type', 'main', 'perp_range', 'depth_range', 'azimuth', 'dip', 'power', 'none'])
            if k == 'type':
                s['type'] = r.choice(R.TYPES)
            elif k in ('main', 'perp_range', 'depth_range'):
                s[k] = s.get(k, s['main']) * r.choice([0.5, 0.9, 1.25])
            elif k in ('azimuth', 'dip'):
                s[k] = s.get(k, 0.0) + r.choice([-20.0, 10.0, 45.0])
            elif k == 'power' and s['type'].lower() == 'general_exponential':
                s['power'] = r.uniform(0.8, 2.0)
        seen.append(s)
        call(p, {'k': 'vario', 'id': nid[0], 'spec': s}, fault() if r.random() < 0.2 else None)
        varios[p][nid[0]] = s

    def start(p):
        tr.append({'t': 'start', 'p': p})
        alive[p], varios[p], seeded[p] = True, {}, False
        if not c['unseeded'] or r.random() < 0.1:
            call(p, {'k': 'seed', 'v': seed_value(r)})
            seeded[p] = True
        elif r.random() < 0.4:
            call(p, {'k': 'get_seed'})
        for _ in range(r.randint(1, 3)):
            new_vario(p)

    for p in range(c['procs']):
        start(p)
    names = list(c['w'])
    weights = [c['w'][n] for n in names]
    for _ in range(c['events']):
        p = r.choice(sorted(alive))
        x = r.random()
        if c['crash'] and x < 0.08:
            tr.append({'t': 'crash', 'p': p})
            start(p)
            continue
        if c['fork'] and 0.08 <= x < 0.14 and len(alive) < 6:
            q = max(alive) + 1
            tr.append({'t': 'fork', 'p': p, 'q': q})
            alive[q], varios[q], seeded[q] = True, dict(varios[p]), seeded[p]
            clock.skew[q] = clock.skew.get(p, 0)
            continue
        if c['bad'] and 0.14 <= x < 0.2:
            call(p, {'k': 'bad', 'which': r.choice(BAD_NAMES + ['sim_impossible_n'] * 3 if prop == 'C04' else BAD_NAMES)})
            continue
        k = r.choices(names, weights)[0]
        if k in ('corr', 'size', 'sim', 'drop') and not varios[p]:
            k = 'vario'
        if k == 'seed':
            call(p, {'k': 'seed', 'v': seed_value(r)}, fault() if r.random() < 0.2 else None)
            seeded[p] = True
        elif k in ('get_seed', 'quote'):
            call(p, {'k': k})
        elif k == 'vario':
            if len(varios[p]) < 6:
                new_vario(p)
        else:
            i = r.choice(sorted(varios[p]))
            s = varios[p][i]
            reps = r.randint(7, 9) if c['reps'] and r.random() < c['reps'] else 1
            if k == 'drop':
                call(p, {'k': 'drop', 'id': i})
                del varios[p][i]
                if r.random() < 0.6:
                    new_vario(p)
            elif k == 'corr':
                n = r.choice([1, 2, 3])
                a = [0.0 if r.random() < 0.1 else s['main'] * r.uniform(-1.5, 1.5) for _ in range(n)]
                call(p, {'k': 'corr', 'id': i, 'a': a}, None, reps)
            elif k == 'size':
                call(p, {'k': 'size', 'id': i, 'a': size_args(r, s)}, fault(), reps)
            else:
                if grids and r.random() < c['alike']:
                    # a grid simulated before, or one that differs in one number
                    a, adv, dim = r.choice(grids)
                    a, adv = list(a), dict(adv)
                    x = r.random()
                    if x < 0.15:
                        adv['s' + r.choice('xyz'[:dim])] = r.choice([0.2, 0.7, 1.0])
                    elif x < 0.3:
                        j = 2 * r.randrange(dim) + 1
                        a[j] = a[j] * r.choice([0.8, 1.5])
                    elif x < 0.4:
                        j = r.randrange(dim)
                        if a[2 * j] > 2:
                            a[2 * j] -= 1
                            adv['pad' + 'xyz'[j]] += 1
                else:
                    a, adv, dim = sim_args(r, s, c['cap'], c['dims'])
                    if r.random() < c['alike']:
                        v = _mk(s)
                        auto = R.paddings(v, *a[:2 * dim])
                        full = dict(adv or {})
                        for j, cc in enumerate('xyz'[:dim]):
                            full.setdefault('pad' + cc, auto[j])
                        grids.append((a[:2 * dim], full, dim))
                op = {'k': 'sim', 'id': i, 'a': a}
                if adv is not None:
                    op['adv'] = adv
                f = fault()
                call(p, op, f, reps)
                if f and r.random() < 0.8:
                    # after a failure: seed again and demand exact behaviour
                    call(p, {'k': 'get_seed'})
                    call(p, {'k': 'seed', 'v': seed_value(r)})
                    if r.random() < 0.7:
                        a, adv, dim = sim_args(r, s, c['cap'], c['dims'])
                        op = {'k': 'sim', 'id': i, 'a': a}
                        if adv is not None:
                            op['adv'] = adv
                        call(p, op)
    return tr


def simplify(ev):
    """simpler variants of one event, for minimisation"""
    out = []
    if ev['t'] != 'call':
        return out
    def w(**kw):
        e = dict(ev)
        e.update(kw)
        return e
    if ev['fill'][0]:
        out.append(w(fill=[0, 0]))
    if ev['clock'][2]:
        out.append(w(clock=[ev['clock'][0], ev['clock'][1], 0]))
    if ev.get('jump'):
        e = dict(ev)
        del e['jump']
        out.append(e)
    op = ev['op']
    if op['k'] == 'sim':
        if op.get('adv'):
            for k in op['adv']:
                adv = {a: b for a, b in op['adv'].items() if a != k}
                out.append(w(op=dict(op, adv=adv)))
        if len(op['a']) > 2:
            out.append(w(op=dict(op, a=op['a'][:-2])))
    if op['k'] == 'vario':
        for k in ('azimuth', 'dip', 'perp_range', 'depth_range', 'power', 'enum'):
            if k in op['spec']:
                out.append(w(op=dict(op, spec={a: b for a, b in op['spec'].items() if a != k})))
    if op['k'] == 'seed' and op['v'] not in (1,):
        out.append(w(op=dict(op, v=1)))
    return out
