"""Shared pieces: one PRNG per run, trace minimisation, replay files."""
import hashlib
import json
import os
import random


def run_rng(verif_seed, prop, index):
    h = hashlib.sha256(('%s/%s/%s' % (verif_seed, prop, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def ddmin(events, fails, budget=400):
    """Greedy delta debugging over a list; `fails(list)` -> bool."""
    calls = [0]

    def test(x):
        calls[0] += 1
        return calls[0] <= budget and fails(x)

    cur = list(events)
    chunk = max(1, len(cur) // 2)
    while True:
        i, changed = 0, False
        while i < len(cur):
            cand = cur[:i] + cur[i + chunk:]
            if cand and test(cand):
                cur, changed = cand, True
            else:
                i += chunk
        if calls[0] > budget:
            return cur
        if chunk == 1:
            if not changed:
                return cur
        else:
            chunk = max(1, chunk // 2)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)
