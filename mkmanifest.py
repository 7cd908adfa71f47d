#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/lib', V + '/sim', V]
import run
checks = run.load()
NA = {
 'C20': 'A pure function of the source text: no schedule, clock, fault or interleaving takes part, so simulation cannot decide it; programs with known results only serve as workloads of the other checks.',
 'C21': 'A pure function of the argument vector; simulation has nothing to vary. Command lines are varied as workload in other checks only.',
 'C22': 'A pure function of the input bytes (input generation, i.e. fuzzing, not simulation). Truncated and failing reads of valid inputs are covered under C05, C06 and C08.',
 'C23': 'Needs other operating systems; none is available here and the simulated one is GNU/Linux.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py',
     'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the checks compile its sources unchanged and redirect the libc entry points named in sim/syms.txt at link time (objcopy).', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    c = checks.get(p['id'])
    if c:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py check %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 run.py check %s --tier thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': getattr(c, 'TECHNIQUE', 'deterministic simulation with fault injection: seeded search'),
                            'level': 'exploration', 'level_note': c.NOTE})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
