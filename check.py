#!/usr/bin/env python3
"""check.py <property id> [--repo DIR]: decide one property of the source tree in /repo statically."""
import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


LIMIT = 780     # seconds; a check is given 900
running = []


def main(argv):
    repo = '/repo'
    if '--repo' in argv:
        i = argv.index('--repo')
        repo = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    t0 = time.time()
    from xsa.interp import Program
    from xsa import report
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    from xsa.checks import MODULES
    for pid in argv:
        prog = Program(repo)
        c = report.Check(pid, prog, tier, seed, repo)
        mod = importlib.import_module('xsa.checks.' + MODULES[pid])
        fn = getattr(mod, pid)
        running[:] = [c, t0, (fn.__doc__ or '').strip()]
        c.guard('analysis', fn, c)
        rc = max(rc, report.finish(c, t0, (fn.__doc__ or '').strip()))
        t0 = time.time()
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    th = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    th.daemon = True
    th.start()
    th.join(LIMIT)
    if th.is_alive() and running:
        # out of time: report what was decided so far
        from xsa import report
        running[0].open('analysis', 'the analysis ran out of time')
        rc = report.finish(*running)
        sys.stdout.flush()
        os._exit(rc)
    sys.exit(res[0] if res else 3)
