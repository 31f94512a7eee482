#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(12000)
import threading
import resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
threading.stack_size(512 * 1024 * 1024)

import warnings
warnings.simplefilter('ignore')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from sa.bench import Bench, AnchorLost
    mod = importlib.import_module('checks.' + pid)
    B = Bench(pid, tier)
    try:
        mod.run(B)
        B.settle()
    except AnchorLost as e:
        print('ANALYSIS-BROKEN property=%s: anchor %s does not exist' % (pid, e))
        return 2
    return B.finish(getattr(mod, 'MINIMUM', 1))


if __name__ == '__main__':
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
