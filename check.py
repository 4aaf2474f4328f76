#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's current
working tree by static analysis.  Exit 0: holds.  Exit 1: VIOLATION line(s).
Exit 2: the analysis itself could not be carried out."""
import importlib
import json
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import frontend            # noqa: E402
from sa.context import Context     # noqa: E402

REG = json.load(open(os.path.join(HERE, 'checks', 'registry.json')))


def known(pid):
    """lines of known_findings.txt: 'KNOWN property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'KNOWN' and w[1] == 'property=' + pid and w[2].startswith('key='):
                out[w[2][4:]] = w[3].strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod, fn = REG.get(pid, ['denoc', 'check'])
    ctx = Context(tier)
    ctx.pid = pid
    try:
        res = getattr(importlib.import_module('checks.' + mod), fn)(ctx)
    except frontend.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 2
    finally:
        ctx.close()
    if res.obligations < res.floor:
        print('ANALYSIS-ERROR property=%s only %d obligations found, expected at least %d' % (pid, res.obligations, res.floor))
        return 2
    kn = known(pid)
    fresh = []
    for v in res.violations:
        if v.key in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[v.key]))
        else:
            fresh.append(v)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(explanation=res.explanation, rule=res.rule, obligations=res.obligations,
               discharged=res.obligations - len(res.violations) if res.obligations >= len(res.violations) else 0,
               checker_cmd='python3 check.py %s %s' % (pid, tier),
               trusted_base=res.trusted, samples=res.samples[:12])
    cov.update(res.extra)
    json.dump(dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
                   assumptions=res.assumptions, wall_s=round(time.time() - t0, 2),
                   violations=len(fresh)), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    if fresh:
        rp = os.path.join(ev, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('%s\n  rule: %s\n  %s\n' % (v.where, v.rule, v.msg))
        for v in fresh[:20]:
            print('  %s: %s [%s]' % (v.where, v.msg, v.rule))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d %.1fs' % (pid, res.obligations, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # no time lost tearing large heaps down
