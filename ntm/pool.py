"""One process per work item, each with its own memory and time limits, so that nothing one item does can lose the rest."""
import os
import pickle
import resource
import select
import signal
import sys
import time

MEMORY = int(os.environ.get("NTM_MEMORY_MB", "3000")) << 20


def _child(fn, item, w):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        sys.setrecursionlimit(20000)
        data = pickle.dumps(fn(item))
    except BaseException as e:
        try:
            data = pickle.dumps(Lost("%s: %s" % (type(e).__name__, str(e)[:200])))
        except MemoryError:
            os._exit(1)
    try:
        while data:
            data = data[os.write(w, data):]
    except OSError:
        code = 1
    os._exit(code)


class Lost(object):
    def __init__(self, why):
        self.why = why


def each(fn, items, jobs, deadline=None, limit=None):
    """(item, fn(item) or Lost) as they are done; limit seconds for each item, deadline (time.time()) for them all"""
    todo = list(items)
    live = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or live:
            now = time.time()
            if deadline is not None and now > deadline:
                for item in todo:
                    yield item, Lost("the time for the whole run was used up")
                todo = []
            while todo and len(live) < jobs:
                item = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    _child(fn, item, w)
                os.close(w)
                live[r] = [pid, item, [], now]
            ready = select.select(list(live), [], [], 1.0)[0]
            for r in ready:
                d = os.read(r, 1 << 20)
                if d:
                    live[r][2].append(d)
                    continue
                pid, item, buf, t0 = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    yield item, pickle.loads(b"".join(buf))
                except Exception:
                    yield item, Lost("the analysis process was ended")
            now = time.time()
            for r in list(live):
                pid, item, buf, t0 = live[r]
                if (limit and now - t0 > limit) or (deadline is not None and now > deadline):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del live[r]
                    yield item, Lost("analysis budget used up")
    finally:
        for r in list(live):
            os.kill(live[r][0], signal.SIGKILL)
            os.waitpid(live[r][0], 0)
            os.close(r)
