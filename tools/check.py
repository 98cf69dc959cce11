#!/usr/bin/env python3
"""python3 tools/check.py <property> [quick|thorough]     runs one check
   python3 tools/check.py --replay <file>                 shows a recorded violation again"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from ctx import Ctx

def registry():
    import checks_text, checks_conf, checks_api, checks_own, checks_build, checks_faults, checks_lint, checks_sessions
    r = {}
    for m in (checks_text, checks_conf, checks_api, checks_own, checks_build, checks_faults, checks_lint, checks_sessions):
        r.update(m.CHECKS)
    return r

def main():
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        print(rec['what'])
        rp = rec['replay']
        if 'job' in rp:
            out, cr = core.run_jobs([rp['job']], driver=rp.get("driver", "parse"), flavour=rp.get("flavour", "asan"))
            print(json.dumps(out[0])[:4000] if out[0] else cr)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    fn, level = registry()[prop]
    ctx = Ctx(prop, tier, seed, level)
    try:
        fn(ctx)
    except core.Trouble as x:
        print('TROUBLE: %s' % x)
        if not ctx.found: return 2
    except Exception:
        traceback.print_exc()
        if not ctx.found: return 2
    return ctx.finish()

if __name__ == '__main__':
    sys.exit(main())
