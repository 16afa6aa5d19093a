#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]: decide one property from
/repo's current sources."""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from va import core, facts, props          # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    core.load_rules()
    try:
        ck = core.Check(a.property, a.tier, seed)
        errs = [(t[0], t[2]) for t in ck.fx.tus if t[2]]
        ck.run()
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    ob = ck.obl
    held = [o for o in ob if o.verdict == 'holds']
    bad = [o for o in ob if o.verdict == 'violated']
    und = [o for o in ob if o.verdict == 'undecided']
    known = core.known().get(a.property, [])
    new, old = [], []
    for o in bad:
        sig = '%s|%s|' % (o.rule, o.site)
        (old if any(k.startswith(sig) for k in known) else new).append(o)
    rules = [{'rule': r, 'text': t} for r, t, _ in core.RULES.get(a.property, [])]
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': a.property, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current sources: %d rule(s) '
            'over %d function(s), %d control-flow path summaries, %d '
            'obligation(s): %d hold, %d violated (%d known), %d undecided.' % (
                len(rules), len(ck.analysed), ck.npaths, len(ob), len(held),
                len(bad), len(old), len(und)),
            'rules': rules,
            'obligations': len(ob), 'discharged': len(held),
            'undecided': [o.js() for o in und],
            'sites': sorted({'%s @ %s' % (o.rule, o.site) for o in ob}),
            'functions': sorted({ck.fx.fns[k]['q'] for k in ck.analysed
                                 if k in ck.fx.fns})[:400],
            'paths': ck.npaths,
            'translation_units': [{'file': t[0], 'functions': t[1],
                                   'errors': t[2]} for t in ck.fx.tus],
            'not_analysed': sorted(facts.NOT_BUILT),
        },
        'assumptions': props.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(core.VERIF, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(ev['coverage']['explanation'])
    if errs:
        print('note: parse errors in %s' % errs)
    for o in und:
        print('undecided: %s @ %s: %s' % (o.rule, o.site, o.detail))
    for o in old:
        print('KNOWN-FINDING: property=%s %s @ %s: %s' % (
            a.property, o.rule, o.site, o.detail))
    if a.v:
        for o in held:
            print('holds: %s @ %s %s' % (o.rule, o.site, o.detail))
    if new:
        rp = os.path.join(core.VERIF, 'evidence', 'replay-%s.json' % a.property)
        with open(rp, 'w') as f:
            json.dump([o.js() for o in new], f, indent=1)
        for o in new:
            print('violated: %s @ %s (%s): %s' % (o.rule, o.site, o.where, o.detail))
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    if not held and not old:
        print('ANALYSIS-BROKEN: no obligation of %s could be decided' % a.property)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
