from common import *

TC = "CONSTANTS Threads={1,2,3,4}\n"
MCI = "INIT Init\nNEXT Next\nINVARIANT Conserve\nINVARIANT Fifo\nINVARIANT Capacity\nPROPERTY Sound\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"
BASIC = ["push", "tpush", "pull", "tpull", "close", "size", "empty"]


def mc(n, kind, ops, cap=1, maxops=2, now=0, depth=0):
    return threads_const(n, Kind='"%s"' % kind, Cap=cap, Sys="FALSE", Ops="{%s}" % ",".join('"%s"' % o for o in ops), MaxOps=maxops, MaxNow=now, Depth=depth)


def spec_side(c, kind, ops, live, gops, now=0, n=3, depth=7, lnow=0, big=False):
    """big: many different calls, so fewer of them"""
    c.mc("QueueMC", MCI + mc(2, kind, ops, maxops=2 if big and c.quick else 3, now=now), "queue", workers=4 if c.quick else 6)
    c.mc("QueueMC", LIVE + mc(2, kind, live, maxops=2 if c.quick else 3, now=lnow), "live", workers=2)
    if not c.quick:
        c.mc("QueueMC", MCI + mc(3, kind, [o for o in ops if o not in ("size", "empty", "full", "xpush")], cap=2, maxops=1 if big else 2, now=now), "queue3", workers=6)
    return c.gen("QueueMC", GENC + mc(n, kind, gops, cap=1, now=now, depth=depth if c.quick else depth + 1), kind, limit=500 if c.quick else 6000)


def scripts(c, g, cfgs, n, start=100000):
    out, pid = [], start
    r = c.rng
    for h in g.result():
        for cfg in cfgs:
            k = cfg["k"]
            if k >= 10 and any(x[1] == "nbpush" for x in h):
                continue
            form = r.randrange(8)

            def name(x):
                o, a, b = x[1], x[2], x[3]
                if o in ("xpush", "xbpush"):
                    return ("tpush" if o == "xpush" else "push", 0, 1, r.choice([0, 2]))
                if o in ("push", "tpush", "nbpush"):
                    return (o, a, 0, (form & 7) | (8 if k >= 11 and a > 0 else 0)) if k >= 11 else (o, a, 0, r.choice([0, 1, 2, 3, 4, 5]) if k in (0, 3, 6) else r.randrange(4))
                if o == "int":
                    return (o, a)
                if o == "wpull":
                    return (o, a, 0, r.choice([0, 1, 2, 3]))
                if o in ("pull", "tpull", "nbpull"):
                    return (o, 0, 0, r.choice([0, 1, 2, 4]) if k in (0, 3, 6) else r.randrange(3))
                return (o,)
            out.append(hist_to_prog(pid, dict(cfg), h, n, name)); pid += 1
    return out


def randoms(c, kinds, n, timed=False, jumps=False, prio=False, intr=True, sizes=True, exc=True, start=0):
    r, progs = c.rng, []
    for i in range(n):
        k = kinds[i % len(kinds)]
        cfg = {"k": k, "cap": r.choice([1, 1, 2, 2, 3]), "bt": r.choice([1, 2]) if r.random() < .6 else 0}
        cfg["bt"] = 1 if cfg["bt"] else 0
        nt = r.choice([2, 3, 3, 4])
        jp = k == 12 and r.random() < .4
        pv = lambda: r.choice([1, 1, 2, 3]) if k == 10 else dur(r) if k >= 11 else 0
        fm = lambda: r.choice([0, 1, 2, 3, 4, 5]) if k in (0, 3, 6) else (r.randrange(4) | (8 if r.random() < .4 and not jp else 0)) if k >= 11 else r.randrange(4)
        pf = lambda: r.choice([0, 1, 2, 4]) if k in (0, 3, 6) else r.randrange(3)
        prod = [(5, lambda r: ("push", pv(), 0, fm())), (2, lambda r: ("tpush", pv(), 0, fm()))]
        cons = [(5, lambda r: ("pull", 0, 0, pf())), (2, lambda r: ("tpull", 0, 0, pf()))]
        if k < 10:
            prod.append((1, lambda r: ("nbpush", 0, 0, r.randrange(2))))
        cons.append((1, lambda r: ("nbpull", 0, 0, 0)))
        if k >= 10:
            cons.append((3, lambda r: ("wpull", dur(r), 0, r.randrange(4))))
        both = [(.5, ("close",))]
        if sizes:
            both += [(.6, ("size",)), (.3, ("empty",)), (.3, ("full",)), (.3, ("closed",)), (.2, ("cap",)), (.3, ("drain",))]
        if exc:
            prod.append((.7, lambda r: (r.choice(["push", "tpush"]), pv(), 1, fm())))
        if intr and cfg["bt"]:
            both.append((.8, lambda r: ("int", r.randint(1, nt))))
        if k >= 10:
            both.append((.7, lambda r: ("sleep", r.choice([700, 1500, 99999, 100001]))))
        if jp:
            both.append((1, lambda r: ("jump", 0, r.choice([-400, -150, -100, 100, 500]))))
        mode = r.random()
        if mode < .5:      # roles
            np_ = r.randint(1, nt - 1)
            th = seqs(r, np_, 1, 4, prod + [(w / 2, o) for w, o in both]) + seqs(r, nt - np_, 1, 4, cons + [(w / 2, o) for w, o in both])
        elif mode < .75:   # a blocked side is always relieved: balanced producers and consumers, no close
            m = r.randint(2, 5)
            a = [("push", pv(), 0, fm()) for _ in range(m)]; b = [("pull", 0, 0, pf()) for _ in range(m)]
            th = [[], [], [], []][:nt]
            for j, o in enumerate(a):
                th[j % max(1, nt // 2)].append(o)
            for j, o in enumerate(b):
                th[max(1, nt // 2) + j % (nt - max(1, nt // 2))].append(o)
            if intr and cfg["bt"] and r.random() < .5:
                th[r.randrange(nt)].append(("int", r.randint(1, nt)))
        else:
            th = seqs(r, nt, 1, 4, prod + cons + both)
        progs.append(prog_line(start + i, cfg, th))
    return progs


def go(c, vs, kinds, g, gcfgs, n, timed=False):
    c.build(vs)
    for v in vs:
        ks = kinds if "MO" not in v.name else [k for k in kinds if k < 11]
        # (what is pushed into an unbounded or priority queue does not wait)
        progs = randoms(c, ks, n, exc="MO" not in v.name)
        if 12 in ks:
            progs += clock_programs(c, 50000)
        c.run(v.name, "QueueTrace", progs, iters=60 if c.quick else 1200, dcap=40 if c.quick else 1200, dbound=2 if c.quick else 3, tmax=5 if c.quick else 60, consts=TC, maxtraces=7000 if c.quick else 100000, tag=v.name)
        sc = scripts(c, g, [x for x in gcfgs if x["k"] in ks], 3); c.scripted += len(sc)
        c.run(v.name, "QueueTrace", sc, iters=1, dcap=0, tmax=8, consts=TC, tag=v.name + "-script", race=(250, 8) if c.quick else (3000, 60), maxtraces=3000 if c.quick else 60000)


def clock_programs(c, start):
    """a system clock that is set back just when a wait ends"""
    r, out = c.rng, []
    for i in range(24 if c.quick else 120):
        d = r.choice([700, 1500, 99999, 100000, 100001]); j = r.choice([-400, -150, -1])
        th = [[("wpull", d, 0, r.choice([0, 1, 1]))], [("sleep", d), ("jump", 0, j)] + ([("sleep", r.choice([0, 700])), (r.choice(["push", "tpush"]), r.choice([0, -500, 700]), 0, r.randrange(4))] if r.random() < .6 else [])]
        if r.random() < .4:
            th.append([(r.choice(["push", "tpush"]), r.choice([0, 700, d]), 0, 0), (r.choice(["tpull", "pull"]), 0, 0, 0)])
        if r.random() < .3:
            th.append([("wpull", d, 0, r.randrange(2))])
        out.append(prog_line(start + i, {"k": 12, "cap": 1, "bt": 0}, th))
    return out


def variants(c, mo=True):
    vs = [Variant("v4", "queue", [V4])] + ([Variant("v5MO", "queue", [V5, "-DMO"])] if mo else [])
    if not c.quick:
        vs += [Variant("v2", "queue", [V2]), Variant("noint", "queue", [V4, NOINT])]
    return vs


def q01(c):
    g = spec_side(c, "fifo", BASIC + ["nbpush", "nbpull", "xpush", "int", "drain"], ["push", "pull", "close", "int"], ["push", "pull", "tpull", "close", "size", "drain", "int"])
    go(c, variants(c), [0, 1, 2, 3, 4], g, [{"k": k, "bt": 1, "cap": 1} for k in (0, 1, 2, 3, 4)], 120 if c.quick else 700)
    c.expect("ret:push=ok", "ret:push=closed", "ret:pull=ok", "ret:pull=closed", "ret:pull=intr", "ret:tpull=empty", "ret:nbpull=busy", "ret:nbpush=busy", "ret:drain=ok", "ret:tpush=exc", "ret:size=ok")


def q02(c):
    g = spec_side(c, "bounded", BASIC + ["nbpush", "nbpull", "xpush", "int", "full"] + ([] if c.quick else ["xbpush"]), ["push", "pull", "close", "int"], ["push", "pull", "tpush", "tpull", "close", "size", "full", "int", "xbpush"])
    go(c, variants(c), [6, 7, 8], g, [{"k": k, "bt": 1, "cap": 1} for k in (6, 7, 8)], 120 if c.quick else 700)
    c.expect("ret:push=ok", "ret:push=closed", "ret:push=intr", "ret:tpush=full", "ret:nbpush=no", "ret:nbpull=busy", "ret:pull=ok", "ret:pull=closed", "ret:pull=intr", "ret:cap=ok", "ret:full=true", "ret:size=ok")


def q03(c):
    g = spec_side(c, "prio", BASIC + ["nbpull", "wpull", "xpush", "int"], ["push", "pull", "wpull", "close", "int"], ["push", "pull", "wpull", "tpull", "close", "int"], now=1, big=True)
    go(c, variants(c), [10], g, [{"k": 10, "bt": 1, "cap": 1}], 120 if c.quick else 700)
    c.expect("ret:push=ok", "ret:push=closed", "ret:pull=ok", "ret:pull=closed", "ret:wpull=timeout", "ret:wpull=ok", "ret:wpull=closed", "ret:wpull=intr", "ret:tpull=empty")


def q04(c):
    g = spec_side(c, "timed", ["push", "pull", "tpull", "wpull", "close"] + ([] if c.quick else ["int"]), ["push", "pull", "wpull", "close", "int"], ["push", "pull", "wpull", "tpull", "close", "size", "int"], now=2, n=2, depth=6, big=True)
    go(c, variants(c, False), [11, 12], g, [{"k": 11, "bt": 1, "cap": 1}], 120 if c.quick else 700)
    c.expect("ret:push=ok", "ret:push=closed", "ret:pull=ok", "ret:pull=closed", "ret:wpull=timeout", "ret:wpull=notready", "ret:wpull=ok", "ret:wpull=closed", "ret:wpull=intr", "ret:tpull=empty", "ret:tpull=notready", "ev:jump")
