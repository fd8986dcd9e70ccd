#!/usr/bin/env python3
"""Re-analyse everything and record the verdicts (run by hand; never by a check).  baseline.py [REGEX of entry ids to refresh]"""
import sys, os, re, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ir, engine, cache
t = time.time()
P = ir.load()
jobs = engine.entries(P)
if len(sys.argv) > 1 and sys.argv[1] != '-':
    pass
out, new, missed = engine.run(P, jobs, fresh='--fresh' in sys.argv)
cache.save('verdicts', out)
bad = sum(1 for v in out.values() if v['fail'])
print(len(jobs), 'entries', len(new), 'analysed', bad, 'with open obligations', sum(1 for v in out.values() if v['err']), 'undecided', round(time.time() - t), 's')
for i, v in sorted(out.items(), key=lambda x: -x[1]['t'])[:15]:
    print(v['t'], i[:110], (v['err'] or '')[:60])
