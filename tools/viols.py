#!/usr/bin/env python3
"""lists the distinct violations of a batch (development aid): viols.py C01 [n]"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core, multiprocessing as mp
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 500; only = sys.argv[3] if len(sys.argv) > 3 else None
mod = core.load(pid); seed = int(os.environ.get('VERIF_SEED', '1'))
viol = {}
with mp.Pool(8) as p:
    for out in p.imap_unordered(core._task, [(pid, seed, i, i + 5, 0) for i in range(0, n, 5)]):
        for o in out:
            if o[1] == 'error': viol.setdefault('ERROR', []) or print('ERROR', o[0], o[2][-600:]); viol['ERROR'].append(0); continue
            if o[1]: viol.setdefault(o[1][0], []).append((o[0], o[1][1]))
for k in sorted(viol):
    if only and k != only or k == 'ERROR': continue
    print('=== %s: %d' % (k, len(viol[k])))
    for i, msg in sorted(viol[k])[:int(os.environ.get('SHOW', 2))]:
        case = core.case_of(mod, seed, i); small, t = core.minimise(mod, case, k, 8)
        v, rs, _ = core.execute(mod, small)
        print(' case', i, v[1][:700]); print('   ', {x: small[x] for x in small if small[x] and x != 'ops'})
        for o in small.get('ops', []): print('      ', o)
