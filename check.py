#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current source by static analysis (nothing of /repo is executed).
exit 0: held on everything analysed; exit 1: VIOLATION line(s); exit 3: the analysis itself could not be carried out."""
import sys, os, json, time, re, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    import ir, props
    from ir import AnalysisBroken
    try:
        res = props.check(pid, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kn = [k for k in known if k['property'] == pid and k['status'] == 'known']
    viol, seen = [], []
    for v in res['violations']:
        hit = None
        for k in kn:
            if k['kind'] == v['kind'] and k['function'] == v['function'] and k.get('construct', v['construct']) == v['construct']:
                hit = k
        if hit is None:
            viol.append(v)
        elif hit not in seen:
            seen.append(hit)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': res['level'],
          'coverage': res['coverage'], 'assumptions': res['assumptions'], 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    ev['coverage']['violating_constructs'] = [{k: v[k] for k in ('kind', 'function', 'construct', 'file', 'line', 'message')} for v in viol]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(VERIF, 'evidence', pid + '.json')
    json.dump(ev, open(ep, 'w'), indent=1)
    if viol:
        for v in viol[:20]:
            print('%s:%s: [%s] %s: %s' % (v['file'], v['line'], v['kind'], v['function'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, ep))
        return 1
    print('%s: held (%s)' % (pid, res['summary']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
