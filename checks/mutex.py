from common import *

TIMEDOPS = ["for", "forms", "until", "suntil", "cuntil", "tabs", "trel", "xt", "ninf"]
MCC = "INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT Excl\nINVARIANT TimedOut\nINVARIANT Progress\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nCONSTRAINT Bound\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT %s\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"


def consts(n, m=1, now=2, rec=2, depth=0):
    return threads_const(n, Mutexes="{%s}" % ",".join(map(str, range(m))), MaxNow=now, MaxRec=rec, Depth=depth)


TC = "CONSTANTS Threads={1,2,3,4}\nMutexes={0,1}\n"


def spec_side(c):
    if c.quick:
        c.mc("MutexMC", MCC + consts(2), "excl")
        c.mc("MutexMC", LIVE + consts(2, now=1), "live", workers=2)
    else:
        c.mc("MutexMC", MCC + consts(3), "excl3", workers=6)
        c.mc("MutexMC", MCC + consts(2, m=2, now=1), "excl22", workers=4)
        c.mc("MutexMC", LIVE + consts(2, now=2), "live", workers=2)
    return (c.gen("MutexMC", GENC % "GInit" + consts(2, depth=9), "rec"),
            c.gen("MutexMC", GENC % "GInitNR" + consts(3, now=1, rec=1, depth=7), "nonrec"))


def scripts(gens, kinds, start=10000):
    progs, pid = [], start
    styles = TIMEDOPS
    for g, ks, n in ((gens[0], [k for k in kinds if k >= 2], 2), (gens[1], [k for k in kinds if k < 2], 3)):
        for i, h in enumerate(g.result()):
            for k in ks:
                if k in (0, 2) and any(x[1] == "for" for x in h):
                    continue
                st = styles[pid % len(styles)]
                progs.append(hist_to_prog(pid, {"k": k}, h, n, lambda x: (st if st != "ninf" else "for", x[2], x[3]) if x[1] == "for" else (x[1], x[2])))
                pid += 1
    return progs


def adapt(c, i, cfg):
    """one program in four of a timed kind goes through an adapter of the library"""
    if cfg["k"] % 2 and c.rng.random() < .25:
        cfg["ad"] = c.rng.choice([1, 2, 3])
        if cfg["ad"] == 1:
            cfg["k"] = 1
    return cfg


def m01(c):
    g = spec_side(c)
    vs = [Variant("v4", "mutex", [V4])]
    if not c.quick:
        vs += [Variant("v2", "mutex", [V2]), Variant("noint", "mutex", [V4, NOINT])]
    c.build(vs)
    n = 100 if c.quick else 600
    for v in vs:
        progs = []
        for i in range(n):
            k = i % 4
            nm = c.rng.choice([1, 1, 1, 2])
            mx = lambda r: r.randrange(nm)
            ch = [(3, lambda r: ("lock", mx(r))), (2, lambda r: ("try", mx(r))), (4, lambda r: ("unlock", mx(r)))]
            if k % 2:
                ch.append((1, lambda r: (r.choice(TIMEDOPS + ["inf"]), mx(r), dur(r))))
            th = seqs(c.rng, c.rng.choice([2, 2, 3, 3, 4]), 2, 5, ch)
            if k >= 2 and c.rng.random() < .3:     # deep recursion
                d = c.rng.randint(3, 6)
                th[0] = [("lock" if c.rng.random() < .7 else "try", 0)] * d + [("unlock", 0)] * d
            for t in th:
                t += [("unlock", x) for x in range(nm) for _ in range(2 if k >= 2 else 1)]
            progs.append(prog_line(i, adapt(c, i, {"k": k, "notime": int(k % 2 == 0)}), th))
        c.run(v.name, "MutexTrace", progs, iters=150 if c.quick else 1500, dcap=80 if c.quick else 1500, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=TC, maxtraces=12000 if c.quick else 120000)
        sc = scripts(g, [0, 1, 2, 3]); c.scripted += len(sc)
        c.run(v.name, "MutexTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")
    c.expect("ret:lock=true", "ret:try=true", "ret:try=false", "ret:timed=true", "ret:timed=false", "ret:unlock=ok")


def m02(c):
    g = spec_side(c)
    vs = [Variant("v4", "mutex", [V4])]
    if not c.quick:
        vs += [Variant("v2", "mutex", [V2]), Variant("noint", "mutex", [V4, NOINT])]
    c.build(vs)
    n = 120 if c.quick else 600
    for v in vs:
        progs = []
        for i in range(n):
            k = 1 + 2 * (i % 2)
            op = TIMEDOPS[(i // 2) % len(TIMEDOPS)]
            timed = lambda r: (op if r.random() < .6 else r.choice(TIMEDOPS), 0, dur(r))
            th = seqs(c.rng, c.rng.choice([2, 2, 3]), 1, 4, [(4, timed), (1, ("lock", 0)), (1, ("try", 0)), (3, ("unlock", 0))])
            # one thread keeps the mutex while it waits for something else
            th[0] = [("lock", 0)] + ([("lock", 1)] if i % 3 else []) + [timed(c.rng) if i % 4 == 0 else ("unlock", 0)] + th[0][:2]
            if i % 3:
                th[1] = [("lock", 1), (c.rng.choice(TIMEDOPS), 0, dur(c.rng)), ("unlock", 1)] + th[1]
            for t in th:
                t += [("unlock", 0), ("unlock", 0), ("unlock", 1)]
            progs.append(prog_line(i, adapt(c, i, {"k": k}), th))
        c.run(v.name, "MutexTrace", progs, iters=120 if c.quick else 1500, dcap=60 if c.quick else 1000, dbound=2, tmax=8 if c.quick else 60, consts=TC, maxtraces=12000 if c.quick else 120000)
        sc = scripts(g, [1, 3]); c.scripted += len(sc)
        c.run(v.name, "MutexTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")
    c.expect("ret:timed=true", "ret:timed=false")
