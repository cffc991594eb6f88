#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    os.environ.setdefault('VERIF_TIER', 'quick')
    mod = importlib.import_module(prop.lower())
    try:
        rc = mod.CHECK().run()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(2)
    sys.stdout.flush()
    os._exit(rc)


main()
