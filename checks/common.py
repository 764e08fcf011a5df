import random
from core import Variant, prog_line, hist_to_prog

V4 = "-DBOOST_THREAD_VERSION=4"
V2 = "-DBOOST_THREAD_VERSION=2"
V3 = "-DBOOST_THREAD_VERSION=3"
V5 = "-DBOOST_THREAD_VERSION=5"
NOINT = "-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"


def threads_const(n, **kw):
    s = "CONSTANTS Threads={%s}\n" % ",".join(str(i) for i in range(1, n + 1))
    for k, v in kw.items():
        s += "%s=%s\n" % (k, v)
    return s


def seqs(rng, n, lo, hi, choices):
    """n threads with lo..hi operations each; choices: list of (weight, op or function -> op)"""
    tot = sum(w for w, _ in choices)

    def one():
        x = rng.uniform(0, tot)
        for w, o in choices:
            x -= w
            if x <= 0:
                return o(rng) if callable(o) else o
        o = choices[-1][1]
        return o(rng) if callable(o) else o

    def one_():
        # now and then wait until everything else has settled
        return ("idle",) if rng.random() < .07 else one()
    return [[one_() for _ in range(rng.randint(lo, hi))] for _ in range(n)]


DUR = [0, 1, 700, 1500, 99999, 100001, 250300, -500, 30000000]


def dur(rng):
    return rng.choice(DUR)
