import json, os, sys, time, traceback
from . import build
from .ir import AnalysisBroken
from .kit import Check
from .registry import CHECKS

VERIF = build.VERIF


def known():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


def run(prop, tier):
    fn, jobs = CHECKS[prop]
    cfgs = build.QUICK if tier == 'quick' else build.THOROUGH
    ck = Check(prop, tier)
    mods = build.load(jobs, cfgs) if jobs else {}
    try:
        fn(ck, mods) if jobs else fn(ck, cfgs)
    except Exception:
        # A rule that already names a violating construct reports it even if a later step could not make sense of the code.
        if not ck.viol:
            raise
    if ck.viol:
        return ck, cfgs
    for r, m in ck.minimum.items():
        if ck.oblig.get(r, 0) < m:
            raise AnalysisBroken('rule %s: only %d obligations (expected at least %d)' % (r, ck.oblig.get(r, 0), m))
    return ck, cfgs


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    t0 = time.time()
    try:
        ck, cfgs = run(prop, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        sys.exit(2)
    kf = known()
    viol, listed = [], []
    for v in ck.viol:
        for k in kf:
            if k['property'] == prop and k['rule'] == v['rule'] and k['function'] in v['function'] + v['where'] and k.get('msg', '') in v['msg']:
                listed.append((k, v))
                break
        else:
            viol.append(v)
    evdir = os.environ.get('LFA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, prop + '.violations.json')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the normalised LLVM IR / resolved program of /repo/include, every run. An obligation is one rule instance (a path, call site or function) that was decided.',
            'configurations': cfgs,
            'functions_analysed': len(ck.funcs),
            'functions': sorted(ck.funcs)[:80],
            'rules': {r: {'rule': ck.rules.get(r, ''), 'obligations': ck.oblig.get(r, 0), 'sites': ck.sites.get(r, [])[:12]} for r in sorted(set(ck.rules) | set(ck.oblig))},
            'obligations': sum(ck.oblig.values()),
        },
        'assumptions': getattr(ck, 'assumptions', []),
        'violations': [dict(rule=v['rule'], where=v['where'], message=v['msg'], function=v['function'], configs=v['configs']) for v in viol],
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for k, v in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['where'], k.get('what', v['msg'])))
    print('%s %s: %d obligations over %d functions, %d rules, %.1f s' % (prop, tier, sum(ck.oblig.values()), len(ck.funcs), len(ck.rules), time.time() - t0))
    if viol:
        json.dump(viol, open(rep, 'w'), indent=1)
        for v in viol:
            print('%s: [%s] %s\n    in %s (%s)' % (v['where'], v['rule'], v['msg'], v['function'], ', '.join(v['configs'])))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    if os.path.exists(rep):
        os.remove(rep)
    sys.exit(0)
