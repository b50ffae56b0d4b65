"""Entry point of every check:  run.py <property> [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
# Import the code of the working tree, never an installed copy.
sys.path.insert(0, os.environ.get('MRV_REPO', '/repo'))

from mrv import core      # noqa: E402


def main(argv):
    prop = argv[0]
    tier = None
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == '--replay':
            replay = rest.pop(0)
        elif a in ('quick', 'thorough'):
            tier = a
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('mrv.checks.' + prop.lower())
    ck = core.Check(prop, tier, seed, replay)
    code = 2
    try:
        with ck:
            mod.run(ck)
            code = ck.finish()
    except core.MachineryError as e:
        sys.stdout.write('MACHINERY-ERROR %s: %s\n' % (prop, e))
        code = 3
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == '__main__':
    main(sys.argv[1:])
