"""What the whole-program rules share."""
import signal
import sys

from ..interp import GiveUp
from ..units import Timeout, _alarm
from .. import diff


class Found(object):
    def __init__(self, rule, construct, what, where="", detail=()):
        self.rule, self.construct, self.what, self.where, self.detail = rule, construct, what, where, list(detail)

    @property
    def key(self):
        return "%s @ %s" % (self.rule, self.construct)


def summary(A, fn, cname, k, inline=False, budget=40):
    """(Canon, Interp) of one function of the repository, or (None, reason)"""
    sys.setrecursionlimit(20000)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(budget)
    try:
        I, s = A.summ(A.impl, fn, cname, k, inline)
        return diff.Canon(s), I
    except Timeout:
        return None, "analysis budget used up"
    except (GiveUp, RecursionError, MemoryError) as e:
        return None, "analysis gave up: %s" % e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
