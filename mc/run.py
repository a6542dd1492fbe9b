"""python -m mc.run ID [--tier quick|thorough] [--job NAME] [--replay FILE]"""
import os
import sys
import json
import importlib
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main(argv):
    from mc import rng
    import numpy
    numpy.seterr(all='ignore')
    rng.install()
    from mc import core
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
        elif argv[i] == '--job':
            only = argv[i + 1]
        elif argv[i] == '--replay':
            with open(argv[i + 1]) as f:
                rec = json.load(f)
            only, tier, seed = rec['job'], rec['tier'], rec['seed']
        i += 2
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(core.REPO + '/') for f in tb):
            # the library no longer imports: everything the property promises is gone
            traceback.print_exc()
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', prop + '-import.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, message='import fails: %r' % e), f)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        raise
    return core.run_check(prop, mod, tier, seed, only)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
