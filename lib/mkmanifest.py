#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harnesses and the reasons below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import harness

NA = {
    'N01': 'A statement about averages over seeds of a pure function of its arguments: no schedule, clock, I/O, crash or fault takes part in it. '
           'What the simulator can decide, that each single field is the circulant-embedding field of its variogram, is part of C01.',
    'N02': 'Pure functions of their arguments: there is nothing to schedule and no fault to inject, so seeded simulation would degenerate into plain input sampling.',
    'N03': 'Input validation of a single call, independent of schedule, time, I/O and history; the observed crashes are described in DESIGN.md.',
}
checks = []
for h in harness.ALL:
    for p in h.props:
        checks.append({'property': p, 'quick_cmd': 'python3 run.py check %s --tier quick' % p,
                       'thorough_cmd': 'python3 run.py check %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'deterministic simulation with fault injection: ' + h.technique(p),
                       'level': h.level, 'level_note': h.level_note(p)})
checks.sort(key=lambda c: c['property'])
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: every seam is a link-time or load-time interposition (--wrap, symbol interposition, compiler instrumentation)',
               'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'Replay any reported violation with: python3 run.py replay <file>. VERIF_SEED selects the search seed.'}
with open(os.path.dirname(HERE) + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
