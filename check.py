#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                         re-run one recorded violation"""
import importlib
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import common as K  # noqa: E402

MODULES = {'C01': 'roundtrip', 'C02': 'roundtrip', 'C03': 'roundtrip', 'C04': 'roundtrip', 'C05': 'roundtrip', 'C12': 'includes', 'C13': 'determinism', 'C15': 'append', 'C16': 'total', 'C14': 'trivia', 'C19': 'outputs', 'C20': 'threads', 'C11': 'compile', 'C18': 'javawire', 'C17': 'consts', 'C06': 'layout', 'C07': 'numbering', 'C08': 'numbering', 'C09': 'validity', 'C10': 'validity'}


def main(argv):
    if len(argv) >= 2 and argv[0] == '--replay':
        rec = json.load(open(argv[1]))
        mod = importlib.import_module('mc.checks.' + MODULES[rec['property']])
        if not hasattr(mod, 'replay'):
            print(json.dumps(rec, indent=1))
            return 2
        return mod.replay(rec)
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    mod = importlib.import_module('mc.checks.' + MODULES[pid])
    chk = K.Check(pid, tier)
    try:
        rule = mod.run(chk)
    except Exception:
        if not chk.nviol:
            raise
        traceback.print_exc()      # what was found before stands
        rule = 'interrupted by an error of the check itself after the violations above'
    return chk.finish(rule)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        rc = main(sys.argv[1:])
    except K.CheckError as e:
        print('CHECK ERROR:', e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        K.cleanup()
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 3)
