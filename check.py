#!/usr/bin/env python3
"""Decide one property of firrtl-ast from the source in /repo.

    check.py <property> [--tier quick|thorough]     exit 0: held, 1: VIOLATION, 2: no answer (the tree does not build, ...)
    check.py --setup                                build the fact extractor
"""
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))

RULES = json.load(open(os.path.join(HERE, 'analysis', 'rules.json')))


def known(prop):
    """Recorded findings: {key: text}; a fixed entry suppresses nothing."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                _, _, rest = l.partition(' key=')
                key, _, text = rest.partition(' ')
                out[key] = text.strip()
    return out


def run(prop, tier):
    t0 = time.time()
    from core import Ctx, Missing
    import facts
    mod, fn = RULES[prop]['rule'].split('.')
    try:
        raw = facts.extract()
        C = Ctx(raw, tier)
        R = getattr(importlib.import_module(mod), fn)(C)
    except facts.ToolError as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    except Missing as e:
        print('ERROR property=%s anchor not found: %s' % (prop, e))
        return 2
    kf = known(prop)
    viol = [(k, t) for k, t in R.violations if k not in kf]
    for k, t in R.violations:
        if k in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kf[k]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join('evidence', prop + '.violation.txt')
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': RULES[prop]['level'],
        'coverage': {
            'explanation': '%s Decided %d obligations: %d proved, %d undecided, %d violated; %d functions of the crate interpreted.'
                           % (RULES[prop]['what'], R.obligations, R.proved, len(R.undecided), len(R.violations), len(R.analysed)),
            'rule': RULES[prop]['what'],
            'obligations': R.obligations, 'discharged': R.proved, 'undecided': R.undecided[:200], 'groups': R.groups,
            'functions_analysed': len(R.analysed), 'functions': sorted(R.analysed)[:400], 'samples': R.samples,
        },
        'assumptions': RULES[prop].get('assumptions', []) + R.assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d proved, %d undecided, %d violated (%.1fs)'
          % (prop, R.obligations, R.proved, len(R.undecided), len(R.violations), time.time() - t0))
    for k, t in viol:
        print('  %s: %s' % (k, t))
    if viol:
        with open(rp, 'w') as f:
            for k, t in viol:
                f.write('%s\n    %s\n' % (k, t))
            f.write('\nreproduce: python3 check.py %s\n' % prop)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if R.proved == 0:
        print('ERROR property=%s no obligation could be decided' % prop)
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        import facts
        print(facts.driver())
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    res = [2]

    def go():
        try:
            res[0] = run(a[0], tier if tier in ('quick', 'thorough') else 'quick')
        except BaseException:
            traceback.print_exc()
            print('ERROR property=%s the analysis failed' % a[0])
    sys.setrecursionlimit(100000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res[0]


if __name__ == '__main__':
    sys.exit(main())
