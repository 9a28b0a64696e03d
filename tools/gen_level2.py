"""Finds where the comparison with every helper opened (level 2) is not precise enough to tell the committed tree from
its specification although the comparison with the helpers kept (level 1) shows them equal.  Writes spec/level2.json:
unit -> channels for which a level-2 difference proves nothing, or "*" where level 2 does not finish.  Rerun after
changes of the engine or the specification."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def late(*a):
    raise TimeoutError


def one(u):
    from ntm.units import Analysis
    global A
    if "A" not in globals():
        A = Analysis("/repo", budget=80)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(70)
    t = time.time()
    try:
        ds, d1 = A.compare(u, True)[0], A.compare(u, False)[0]
        known = {d.chan for d in d1 or ()}
        return u, "*" if ds is None else sorted({d.chan for d in ds} - known), time.time() - t
    except BaseException:
        return u, "*", time.time() - t
    finally:
        signal.alarm(0)


if __name__ == "__main__":
    from ntm.units import Analysis
    out = {}
    with mp.Pool(8) as p:
        for u, d, t in p.imap_unordered(one, Analysis("/repo").units(), 1):
            if d:
                out["%s.%s.%s[%s]" % u] = d
    with open(os.path.join(HERE, "spec", "level2.json"), "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")
