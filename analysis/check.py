#!/usr/bin/env python3
"""Decide one property on /repo's current source: check.py <ID> [quick|thorough]"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p):
        line = line.rstrip('\n')
        if line.startswith('finding: '):
            # finding: property=<id> key=<violation key> :: what fails
            body = line[len('finding: '):]
            head, _, what = body.partition(' :: ')
            pid, _, key = head.partition(' key=')
            out.append((pid[len('property='):], key, what))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import facts
    try:
        import rules
        import rulelib
        fn, level = rules.get(pid)
        C = rulelib.Check(pid, tier)
        fn(C)
    except facts.ExtractError as e:
        print('cannot analyse /repo: ' + str(e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    kn = known()
    bad = [o for o in C.obs if not o[2]]
    # one report per construct
    seen, viols = set(), []
    for rule, key, _, detail, where in bad:
        k = '%s|%s' % (rule, key)
        if k not in seen:
            seen.add(k)
            viols.append((k, detail, where))
    news, olds = [], []
    for v in viols:
        m = [x for x in kn if x[0] == pid and x[1] == v[0]]
        (olds if m else news).append(v)
    for v in olds:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, v[0], v[1]))
    EVD = os.environ.get('PAPYRI_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    oks = sum(1 for o in C.obs if o[2])
    by_rule = {}
    for rule, key, ok, _, _ in C.obs:
        r = by_rule.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += ok
    samples = []
    got = set()
    for rule, key, ok, detail, where in C.obs:
        if rule not in got or len(samples) < 12:
            got.add(rule)
            samples.append({'rule': rule, 'obligation': key, 'holds': ok, 'at': where})
        if len(samples) >= 40:
            break
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': 'Static analysis of the type-checked MIR of /repo (library and binary), extracted on this run from the current '
                           'source; nothing is executed. ' + (fn.__doc__ or '').strip(),
            'obligations': len(C.obs), 'discharged': oks,
            'functions_in_program': len(C.P.bodies),
            'functions_explored': sorted({x[0] for x in C.explored}),
            'path_classes': sum(x[1] for x in C.explored),
            'abstract_steps': sum(x[2] for x in C.explored),
            'bodies_visited': sum(x[3] for x in C.explored),
            'counts': C.counts, 'rules': C.rules,
            'per_rule': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in by_rule.items()},
            'samples': samples,
            'known_findings': [v[0] for v in olds],
        },
        'assumptions': C.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(news),
    }
    if level == 'proof':
        ev['coverage']['checker_cmd'] = 'python3 analysis/check.py %s %s' % (pid, tier)
        ev['coverage']['trusted_base'] = ['rustc nightly MIR', 'driver/driver.rs', 'analysis/ai.py', 'analysis/models.py', 'analysis/rules']
    with open(os.path.join(EVD, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if news:
        rep = os.path.join(EVD, pid + '.violation.txt')
        with open(rep, 'w') as f:
            for k, d, w in news:
                f.write('violation: %s\n  %s\n  at: %s\n' % (k, d, w))
        for k, d, w in news[:20]:
            print('  %s: %s [%s]' % (k, d, w))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('%s: %d obligations hold (%d functions explored, %d path classes, %.1fs)'
          % (pid, len(C.obs), len(C.explored), sum(x[1] for x in C.explored), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
