#!/usr/bin/env python3
"""Decides one property on /repo's current working tree by static analysis.

usage: check.py --property Cnn [--tier quick|thorough]
Exit 0: holds on everything analysed.  Exit 1 + VIOLATION line: broken.
Exit 2: the analysis could not be carried out (no verdict)."""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sa'))


def known_findings(prop):
    out = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3] if len(w) > 3 else ''
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    t0 = time.time()
    import build
    import checks
    import explore
    explore.FINAL[0] = t0 + (780 if tier == 'quick' else 6 * 3600)
    try:
        rep = checks.run(prop, tier)
    except build.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        return 2
    known = known_findings(prop)
    new = []
    for f in rep.findings:
        if f.key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[f.key] or f.msg))
        else:
            new.append(f)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
        'coverage': dict({'explanation': rep.explanation}, **rep.coverage),
        'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('# re-run: python3 %s/check.py --property %s --tier %s\n' % (VERIF, prop, tier))
            for x in new:
                f.write(x.text() + '\n')
        for x in new[:10]:
            print(x.text()[:1500])
        if len(new) > 10:
            print('... and %d more, see %s' % (len(new) - 10, rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s %s' % (prop, json.dumps({k: v for k, v in rep.coverage.items()
                                                   if isinstance(v, (int, bool))})))
    return 0


if __name__ == '__main__':
    sys.exit(main())
