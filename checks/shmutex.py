from common import *

WAYS = 6
V2SM = "-DBOOST_THREAD_V2_SHARED_MUTEX"
MCC = "INIT Init\nNEXT Next\nINVARIANT Excl\nINVARIANT NotEarly\nINVARIANT Progress\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"
TC = "CONSTANTS Threads={1,2,3,4}\n"


def consts(n, now=1, depth=0, ups=True):
    return threads_const(n, MaxNow=now, Depth=depth, Ups=str(ups).upper())


def spec_side(c):
    if c.quick:
        c.mc("SharedMutexMC", MCC + consts(2), "excl")
        return c.gen("SharedMutexMC", GENC + consts(2, now=1, depth=6), "g2", limit=1500), c.gen("SharedMutexMC", GENC + consts(3, now=1, depth=4), "g3", limit=1200)
    c.mc("SharedMutexMC", MCC + consts(3), "excl3", workers=6)
    c.mc("SharedMutexMC", LIVE + consts(2), "live", workers=2)
    return c.gen("SharedMutexMC", GENC + consts(2, now=2, depth=8), "g2", limit=12000), c.gen("SharedMutexMC", GENC + consts(3, now=1, depth=5), "g3", limit=12000)


def variants(c):
    vs = [Variant("v1", "shmutex", [V4]), Variant("v2", "shmutex", [V4, V2SM])]
    if not c.quick:
        vs += [Variant("v1noint", "shmutex", [V4, NOINT]), Variant("v1v3", "shmutex", [V3])]
    return vs


def ops(rng, variant, k, timedw, convw):
    # the v2 upgrade mutex applies a relative date-time timeout twice for exclusive requests: see rel2()
    w = lambda r: r.randrange(5 if variant.startswith("v2") else WAYS)
    w4 = lambda r: r.randrange(4)
    ch = [(2, ("lock", 0)), (1, ("try", 0)), (timedw, lambda r: ("timed", w(r), dur(r))),
          (2, ("slock", 0)), (1, ("stry", 0)), (timedw, lambda r: ("stimed", r.randrange(WAYS), dur(r))), (3, ("unlock", 0))]
    if k == 0:
        ch += [(1.5, ("ulock", 0)), (1, ("utry", 0)), (timedw, lambda r: ("utimed", r.randrange(WAYS), dur(r)))]
        ch += [(convw, (o, 0)) for o in ("x2s", "x2u", "u2s", "u2x", "u2x", "u2xtry", "s2xtry", "s2utry")]
        ch += [(convw * timedw, lambda r, o=o: (o, w4(r), dur(r))) for o in ("u2xtimed", "s2xtimed", "s2utimed")]
    return ch


def run(c, timedw, convw, salt):
    g = spec_side(c)
    vs = variants(c)
    c.build(vs)
    n = 160 if c.quick else 900
    for v in vs:
        progs = []
        for i in range(n):
            k = 1 if v.name == "v2" and i % 5 == 0 else 0
            nt = c.rng.choice([2, 2, 3, 3, 4])
            th = seqs(c.rng, nt, 2, 5, ops(c.rng, v.name, k, timedw, convw))
            if k == 0 and i % 3 == 0:    # start from a conversion under contention
                th[0] = [c.rng.choice([("ulock", 0), ("slock", 0)]), c.rng.choice([("u2x", 0), ("u2xtimed", 0, 1500), ("s2xtimed", 1, 1500), ("s2utimed", 1, 1500), ("u2xtry", 0), ("s2xtry", 0), ("s2utry", 0), ("u2s", 0)])] + th[0][:3]
                th[1] = [("slock", 0), c.rng.choice([("unlock", 0), ("s2xtimed", 0, 700), ("s2utimed", 0, 700), ("unlock", 0)])] + th[1][:3]
            for t in th:
                t.append(("unlock", 0))
            progs.append(prog_line(i, {"k": k, "notime": int(c.rng.random() < .3)}, th))
        c.run(v.name, "SharedMutexTrace", progs, iters=150 if c.quick else 1500, dcap=80 if c.quick else 1000, dbound=2, tmax=8 if c.quick else 60, consts=TC, maxtraces=12000 if c.quick else 100000)
        sc, pid = [], 10000
        for gg, nt in ((g[0], 2), (g[1], 3)):
            for h in gg.result():
                sc.append(hist_to_prog(pid, {"k": 0}, h, nt, lambda x: (x[1], pid % 4, x[3])))
                pid += 1
        c.scripted += len(sc)
        c.run(v.name, "SharedMutexTrace", sc, iters=1, dcap=0, tmax=15, consts=TC, tag=v.name + "-script")


def s01(c):
    run(c, 0.4, 0.6, 1)
    c.expect(*["ret:%s=true" % o for o in "lock try slock stry ulock utry x2s x2u u2s u2x u2xtry s2xtry s2utry".split()])
    c.expect(*["ret:%s=false" % o for o in "try stry utry u2xtry s2xtry s2utry".split()])


def s02(c):
    run(c, 1.2, 1.0, 2)
    # known finding: a relative date-time timeout is spent twice by the v2 mutexes' timed_lock
    c.exes["v2rel"], c.variants["v2rel"] = c.exes["v2"], c.variants["v2"]
    progs = [prog_line(20000 + i, {"k": i % 2, "notime": 1}, [[("lock", 0), ("unlock", 0)], [("slock", 0)], [("timed", 5, 1500 + 100 * i)], [("stimed", 0, 1000)]], [1, 2, 3, 4, 0, 1, 0, 0]) for i in range(4)]
    c.run("v2rel", "SharedMutexTrace", progs, iters=1, dcap=0, tmax=5, consts=TC)
    c.expect(*["ret:%s=%s" % (o, r) for o in "timed stimed utimed u2xtimed s2xtimed s2utimed".split() for r in ("true", "false")])
