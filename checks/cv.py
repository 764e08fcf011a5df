from common import *

SPECC = "INVARIANT Monitor\nINVARIANT Truth\nINVARIANT ExitHolds\nCHECK_DEADLOCK FALSE\n"
MCC = "INIT Init\nNEXT Next\n" + SPECC
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nPROPERTY LiveAll\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"
TC = "CONSTANTS Threads={1,2,3,4}\nMons={0,1}\n"
TIMEDW = ["for", "forms", "until", "suntil", "cuntil", "tabs", "trel", "xt"]


def consts(n, m=1, now=1, depth=0, styles=(0, 1, 2, 3), jumpy=False):
    return threads_const(n, Mons="{%s}" % ",".join(map(str, range(m))), MaxNow=now, Depth=depth, Styles="{%s}" % ",".join(map(str, styles)), Jumpy=str(jumpy).upper())


def spec_side(c, styles=(0, 1, 2, 3)):
    if c.quick:
        c.mc("CondVarMC", MCC + consts(2, now=1, styles=styles), "cv2")
        c.mc("CondVarMC", LIVE + consts(2, now=0, styles=(0, 2)), "live", workers=2)
    else:
        c.mc("CondVarMC", MCC + consts(3, now=1, styles=styles), "cv3", workers=6)
        c.mc("CondVarMC", MCC + consts(2, now=2, styles=(0, 1, 3, 13, 15), jumpy=True), "cv2clk", workers=4)
        c.mc("CondVarMC", LIVE + consts(2, now=1, styles=(0, 2, 3)), "live", workers=2)


def scripts(c, h, kinds, limit):
    progs, pid = [], 10000
    hs = h.result()
    if len(hs) > limit:
        hs = c.rng.sample(hs, limit)
    for i, x in enumerate(hs):
        k = kinds[i % len(kinds)]
        st = TIMEDW[i % len(TIMEDW)]
        progs.append(hist_to_prog(pid, {"k": k}, x, 3, lambda y: (st if y[1] == "until" else y[1],) + tuple(y[2:])))
        pid += 1
    return progs


VARS = lambda c: [Variant("v4", "cv", [V4]), Variant("noint", "cv", [V4, NOINT])] + ([] if c.quick else [Variant("v2", "cv", [V2])])


def mon_thread(c, x, waits, pj=0.0):
    """lock, do something, unlock"""
    r = c.rng
    th = [("wbad", x, r.randrange(4))] if r.random() < .08 else []
    th.append(("lock", x))
    for _ in range(r.choice([1, 1, 2])):
        y = r.random()
        if y < waits:
            if r.random() < .5:
                th.append(("wait" if r.random() < .9 else "inf", x, 0, r.choice([0, 1])))
            else:
                th.append((r.choice(TIMEDW), x, dur(r), r.choice([0, 1])))
        elif y < waits + .25:
            th.append(("set", x, r.choice([1, 1, 0])))
        elif y < waits + .35:
            th += [("unlock", x), ("lock", x)]
        if r.random() < .35:
            th.append((r.choice(["n1", "nall"]), x))
    th.append(("unlock", x))
    if r.random() < .4:
        th.append((r.choice(["n1", "nall"]), x))
    if r.random() < pj:
        th.append(("jump", 0, r.choice([-2000, -50, 50, 150, 2000])))
    return th


def c01(c):
    spec_side(c)
    g = c.gen("CondVarMC", GENC + consts(3, now=0, depth=9 if c.quick else 11, styles=(0, 2)), "cv")
    c.build(VARS(c))
    n = 160 if c.quick else 800
    for v in c.variants.values():
        progs = []
        for i in range(n):
            k = i % 5
            nt = c.rng.choice([2, 2, 3, 3, 4])
            nx = c.rng.choice([1, 1, 1, 2])
            th = []
            for t in range(nt):
                a = []
                for _ in range(c.rng.choice([1, 1, 2])):
                    a += mon_thread(c, c.rng.randrange(nx), .75 if t < nt - 1 else .1)
                th.append(a)
            # waiters without predicate that somebody certainly notifies, and one that sets the flag
            th[-1] += [("lock", 0), ("set", 0, 1), (c.rng.choice(["n1", "nall"]), 0), ("unlock", 0), (c.rng.choice(["n1", "nall"]), 0)]
            progs.append(prog_line(i, {"k": k}, th))
        c.run(v.name, "CondVarTrace", progs, iters=100 if c.quick else 1500, dcap=60 if c.quick else 1500, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=TC, maxtraces=6000 if c.quick else 100000)
        sc = scripts(c, g, [0, 1, 2, 3, 4], 600 if c.quick else 5000); c.scripted += len(sc)
        c.run(v.name, "CondVarTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")
    c.expect("ret:wait=ok", "ret:wait=true", "ret:wait=false", "ret:wait=timeout", "ret:n1=ok", "ret:nall=ok", "ret:wbad=err")


def c02(c):
    spec_side(c, (1, 3) if c.quick else (0, 1, 2, 3))
    g = c.gen("CondVarMC", GENC + consts(2, now=2, depth=9 if c.quick else 12, styles=(0, 1, 3)), "cv")
    c.build(VARS(c))
    n = 200 if c.quick else 800
    for v in c.variants.values():
        progs = []
        for i in range(n):
            k = i % 5
            op = TIMEDW[(i // 5) % len(TIMEDW)]
            nt = c.rng.choice([1, 2, 2, 3])
            th = []
            for t in range(nt):
                w = (op if c.rng.random() < .7 else c.rng.choice(TIMEDW + ["ninf"]), 0, dur(c.rng), c.rng.choice([0, 1]))
                th.append([("lock", 0), w, ("unlock", 0)])
                if c.rng.random() < .3:
                    th[-1] += [("lock", 0), (op, 0, dur(c.rng), 1), ("unlock", 0)]
            if i % 3 == 0:
                th.append([("jump", 0, c.rng.choice([-2000, -300, -50, 50, 150, 2000, 40000]))] + ([("jump", 0, c.rng.choice([-100, 100]))] if i % 2 else []))
            if i % 3 == 1:
                th.append(mon_thread(c, 0, 0))
            if i % 3 == 2:     # the owner keeps the mutex over the deadline
                th.append([("lock", 0), ("n1", 0), ("lock", 1), (c.rng.choice(["for", "until"]), 1, dur(c.rng), 0), ("unlock", 1), ("set", 0, c.rng.choice([0, 1])), ("unlock", 0)])
            progs.append(prog_line(i, {"k": k}, th[:4]))
        c.run(v.name, "CondVarTrace", progs, iters=80 if c.quick else 1200, dcap=40 if c.quick else 800, dbound=2, tmax=8 if c.quick else 60, consts=TC, maxtraces=6000 if c.quick else 100000)
        sc = scripts(c, g, [0, 1, 2, 3, 4], 500 if c.quick else 5000); c.scripted += len(sc)
        c.run(v.name, "CondVarTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")
    c.expect("ret:wait=ok", "ret:wait=true", "ret:wait=false", "ret:wait=timeout", "ev:jump")


def c03(c):
    spec_side(c, (0, 3))
    c.build([Variant("v4", "cv", [V4])] + ([] if c.quick else [Variant("noint", "cv", [V4, NOINT])]))
    n = 120 if c.quick else 600
    for v in c.variants.values():
        progs = []
        for i in range(n):
            nt = c.rng.choice([2, 2, 3, 4])
            th = []
            for t in range(nt):
                if t == 0 or c.rng.random() < .3:
                    a = [("lock", 0)]
                    if c.rng.random() < .3:
                        a += [("lock", 1)]
                    elif c.rng.random() < .3:
                        a += [(c.rng.choice(["wait", "for"]), 0, dur(c.rng), 1)]
                    if c.rng.random() < .7:
                        a += [("set", 0, 1)]
                    th.append(a + [("exit", 0)])
                else:
                    x = c.rng.choice([0, 0, 0, 1])
                    th.append([("lock", x), (c.rng.choice(["wait", "wait", "for", "suntil"]), x, dur(c.rng), c.rng.choice([0, 1])), ("unlock", x)] + ([("n1", 0)] if c.rng.random() < .2 else []))
            progs.append(prog_line(i, {"k": 0, "bt": i % 3}, th))
        c.run(v.name, "CondVarTrace", progs, iters=100 if c.quick else 1500, dcap=60 if c.quick else 1500, dbound=2, tmax=8 if c.quick else 60, consts=TC, maxtraces=8000 if c.quick else 100000)
    c.expect("ret:exit=ok", "ev:tlsdone", "ret:wait=ok", "ret:wait=true")
