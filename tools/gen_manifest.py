#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist and the reasons below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(V, 'harness'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'N': 'A pure function of its arguments: no scheduling, time, I/O, fault or history for a simulator to vary, so deterministic simulation has nothing to decide here.',
}
NOTBUILT = 'No sound simulation of this part was finished in the time available; see DESIGN.md.'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        import importlib
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique='deterministic simulation with fault injection (seeded random search, %s)' % getattr(m, 'ORACLE', 'reference model'),
                           level='exploration', level_note=getattr(m, 'NOTE', 'Sampled executions of the real code over a simulated kernel, judged against an executable reference model; trusts sim/libsim.c to behave like Linux for the calls used.')))
    else: na.append(dict(property=i, reason=NA.get(i[0], NOTBUILT)))
json.dump(dict(version=1, setup_cmd='./build.sh .build', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='no hooks: the seam is the C library boundary (LD_PRELOAD of sim/libsim.c); /repo is built as shipped', source_commits=[]),
               notes='Every check rebuilds /repo in /verif/.build (git-ignored) when the tree changed. KNOWN_FINDINGS.txt lists repaired and open defects.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
