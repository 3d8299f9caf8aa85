#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on the current source of /repo
   check.py all                              every registered property (development use)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading


def main():
    from sa import core
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a == ['all']:
        from sa import allrules
        rc = 0
        for p in sorted(core.RULES):
            rc = max(rc, core.run(p, tier, seed))
        return rc
    return core.run(a[0], tier, seed)


if __name__ == '__main__':
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
