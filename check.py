#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib, json, os, subprocess, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'mc'), os.path.join(HERE, 'checks')]
import mclib


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(prop.lower())
    c = mclib.Ctx(prop, mod.LEVEL, tier if tier in ('quick', 'thorough') else 'quick', seed)
    if '--replay' in sys.argv:
        # rebuild everything, then run the recorded command again
        rec = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        mod.run(c, build_only=True)
        r = subprocess.run(rec['cmd'], env=c.env(True))
        return 1 if r.returncode else 0
    try:
        return mod.run(c)
    except mclib.Broken as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
