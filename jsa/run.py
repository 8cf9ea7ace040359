#!/usr/bin/env python3
"""run.py <property> [quick|thorough] : decide one property on /repo's current tree."""
import importlib
import json
import os
import re
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('JSA_EVID', os.path.join(VERIF, 'evidence'))


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    from build import AnalysisBroken
    def late(sig, frm):
        raise AnalysisBroken('time budget exceeded')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('JSA_TIME', '780')))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    kn = known(prop)
    why = None
    try:
        mod = importlib.import_module(prop.lower())
        if 'engine' in sys.modules:
            sys.modules['engine'].Engine.KNOWN = frozenset(kn)
        res = mod.check(tier)
    except AnalysisBroken as e:
        why = str(e)
    except MemoryError:
        why = 'memory budget exceeded'
    except Exception:
        traceback.print_exc()
        why = 'internal error'
    signal.alarm(0)
    if why is not None:
        print('%s: analysis cannot give an answer: %s' % (prop, why))
        # what was already established on the paths that were analysed stands
        eng = sys.modules.get('engine')
        part = [v for e in eng.Engine.live for v in e.violations.values()] if eng else []
        if not any(v.get('fid') not in kn for v in part):
            return 2
        res = dict(violations=part, coverage=dict(incomplete=why))
    viol, found = [], {}
    for v in res['violations']:
        v.pop('t', None)
        fid = v.get('fid')
        if fid is not None and fid in kn:
            found.setdefault(fid, v)
        else:
            viol.append(v)
    cov = res['coverage']
    cov.setdefault('explanation', res.get('explanation', ''))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=res.get('level', 'other'),
              coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=res.get('assumptions', []))
    for fid, v in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s: %s (at %s)' % (prop, fid, kn[fid], v.get('where', '?')))
    ev['coverage']['known_findings'] = sorted(found)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if viol:
        rp = os.path.join(EVID, prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
            f.write('\n')
        for v in viol[:20]:
            print('  [%s] %s: %s' % (v['rule'], v.get('where', '?'), v['message']))
            for s in v.get('path', [])[-12:]:
                print('      ' + s)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: ok (%s) in %.1fs' % (prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items()
                                                if isinstance(v, int)), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
