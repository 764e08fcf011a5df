from common import *
TC = "CONSTANTS Threads={1,2,3}\nCells={1,2,3}\nHandles={1,2,3,4,5,6,7}\n"
INV = "INVARIANT Account\nINVARIANT NoneLost\nINVARIANT NoDeadlock\nPROPERTY Guarded\nPROPERTY Stable\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def K(ops, threads=2, cells=2, handles=2, mo=3, depth=0):
    return threads_const(threads, Cells="{%s}" % ",".join(map(str, range(1, cells + 1))), Handles="{%s}" % ",".join(map(str, range(1, handles + 1))),
                         Ops="{%s}" % ",".join('"%s"' % o for o in ops.split()), MaxOps=mo, Depth=depth)


def p01(c):
    q = c.quick
    c.mc("SyncValMC", "INIT Init\nNEXT Next\n" + INV + K("get set add swt cmt asg swp cmp open2", mo=3 if q else 4), "whole", workers=3)
    c.mc("SyncValMC", "INIT Init\nNEXT Next\n" + INV + K("add open open2 defer try hacc hmove", mo=4 if q else 5), "handles", workers=3)
    c.mc("SyncValMC", "INIT InitR\nNEXT Next\n" + INV + K("add asg open open2 try hacc", mo=3 if q else 5), "recursive", workers=3)
    c.mc("SyncValMC", "SPECIFICATION FairSpec\nPROPERTY Live\nVIEW View\nCHECK_DEADLOCK FALSE\n" + K("get add cmt swt", cells=2, mo=3), "live", workers=2)
    g = c.gen("SyncValMC", "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n" + K("get add asg swp cmp open open2 defer try hacc hmove", mo=99, depth=4 if q else 6), "sval", limit=500 if q else 6000)
    vs = [Variant("v4", "sval", [V4]), Variant("v2", "sval", [V2])] + ([] if q else [Variant("v5", "sval", [V5])])
    c.build(vs)
    r = c.rng
    C1 = lambda nc: r.randint(1, nc)

    def C2(nc):
        a = r.randint(1, nc)
        b = a if r.random() < .25 else r.choice([x for x in range(1, nc + 1) if x != a])
        return a * 10 + b
    F = lambda n: 10000 * r.randrange(n)
    T = lambda: 1000 if r.random() < .12 else 0
    X = lambda: r.randint(1, 4)

    def handle(nc, t):
        """a handle's life"""
        h = 2 * t + r.randint(0, 1) + (1 if t == 0 else 0); a = []
        kind = r.choice(["open", "open", "open2", "open2", "open3", "defer", "try"])
        n = 1
        if kind == "open":
            a.append(("open", C1(nc), 0, h + 10 * r.randrange(4)))
        elif kind in ("open2", "open3"):
            n = min(nc, 2 if kind == "open2" else 3)
            a.append(("open", int("".join(map(str, r.sample(range(1, nc + 1), n)))), 0, h + 10 * r.randrange(3)))
        else:
            a.append((kind, C1(nc), 0, h + 10 * r.randrange(2) + F(2)))
        for _ in range(r.randint(1, 4)):
            o = r.choice(["hget", "hset", "hget", "hlock", "hunlock", "htry", "hadopt", "hmove"])
            a.append((o, 0, X(), h + 10 * r.randint(1, n) + F(2)))
        return a + [("hclose", 0, 0, h)]
    for v in vs:
        progs = []
        for i in range(260 if q else 1500):
            nc = r.choice([1, 2, 2, 3]); th = []
            for t in range(r.choice([1, 2, 2, 2, 3])):
                a = []
                for _ in range(r.randint(1, 4)):
                    z = r.random()
                    if z < .3:
                        a += handle(max(nc, 2), t)
                    else:
                        o = r.choice(["get", "get", "set", "add", "add", "swt", "asg", "asg", "swp", "swp", "cmp", "cmp", "cmt"])
                        two = o in ("asg", "swp", "cmp")
                        a.append((o, C2(max(nc, 2)) if two else C1(nc), X(), 10 * r.randrange(6) + T() + F(10)))
                th.append(a)
            progs.append(prog_line(i, {"m": r.choice([0, 0, 1, 2])}, th))
        c.run(v.name, "SyncValTrace", progs, iters=100 if q else 1500, dcap=60 if q else 1000, dbound=2 if q else 3, tmax=8 if q else 60, consts=TC, maxtraces=3500 if q else 80000)
        f = lambda x: (x[1], x[2], x[3], x[4] % 10 + 10 * (x[4] // 10 % 10 if x[1] in ("hget", "hset", "cmp", "cmt") else r.randrange(2)) + 1000 * (x[4] // 1000) + F(10))
        sc = [hist_to_prog(10000 + i, {"m": [0, 2, 0, 1][i % 4] if v.name == "v4" else 0}, h, 2, f) for i, h in enumerate(g.result())]
        c.scripted += len(sc)
        c.run(v.name, "SyncValTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")
    c.expect("ret:get=ok", "ret:set=ok", "ret:add=ok", "ret:swt=ok", "ret:asg=ok", "ret:swp=ok", "ret:cmp=true", "ret:cmp=false", "ret:cmt=true", "ret:cmt=false", "ret:open=ok", "ret:try=true", "ret:try=false",
             "ret:hlock=ok", "ret:hlock=error", "ret:htry=false", "ret:hunlock=ok", "ret:hunlock=error", "ret:hadopt=ok", "ret:hmove=ok", "ret:hget=ok", "ret:hset=ok", "ret:set=thrown", "ret:asg=thrown")
