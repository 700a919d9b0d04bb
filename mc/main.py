"""Entry point: python -m mc.main <property> | --replay <file>"""

import base64
import json
import os
import pickle
import sys


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier.startswith('t') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv[0] == '--replay':
        return replay(argv[1])
    from mc import core
    prop = argv[0].upper()
    return core.check('mc.props.' + prop.lower(), prop, tier, seed)


def replay(path):
    import importlib
    import signal
    from mc import core
    with open(path) as f:
        v = json.load(f)
    module = importlib.import_module(v['module'])
    case = pickle.loads(base64.b64decode(v['pickle']))
    signal.signal(signal.SIGALRM, core._on_alarm)
    r = core.Recorder(v['property'], core.load_known(v['property']))
    out = core.run_case(module, case, r)
    print('case:', core.show(case, 5000))
    if out is None:
        print('no violation')
        return 0
    print('VIOLATION property=%s replay=%s' % (v['property'], path))
    print(' ', out['msg'])
    for k, x in out['details'].items():
        print('  %s: %s' % (k, x))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
