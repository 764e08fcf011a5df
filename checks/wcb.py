from common import *

TC = "CONSTANTS Threads={1,2,3}\n"
INV = "INVARIANT Once\nINVARIANT True\nINVARIANT Stuck\nINVARIANT Served\nPROPERTY Lazy\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def K(threads, ops, now, cbs, tasks, depth=0):
    return threads_const(threads, MaxOps=ops, MaxNow=now, CbKinds="{%s}" % cbs, Tasks="{%s}" % tasks, Depth=depth)


def f08(c):
    q = c.quick
    c.mc("WaitCbMC", "INIT Init\nNEXT Next\n" + INV + K(2, 3 if q else 4, 0, "1,2,3", "1"), "cb", workers=4)
    c.mc("WaitCbMC", "INIT Init\nNEXT Next\n" + INV + K(2, 3, 2, "2,4", "2"), "timed", workers=2)
    c.mc("WaitCbMC", "INIT Init\nNEXT Next\n" + INV + K(2 if q else 3, 4, 0, "2", "1"), "lazy", workers=2)
    g = c.gen("WaitCbMC", "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n" + K(2, 99, 0, "1,2,3,4", "1", depth=5 if q else 7), "cb", limit=500 if q else 6000)
    vs = [Variant("v4", "wcb", [V4]), Variant("v2", "wcb", [V2])] + ([] if q else [Variant("v5", "wcb", [V5])])
    c.build(vs)
    r = c.rng
    us = lambda: r.choice([0, 1, 700, 700, 1500, 99999, -500])
    S = lambda: r.choice([1, 1, 1, 2])
    for v in vs:
        progs = []
        for i in range(260 if q else 1500):
            ops = [(4, lambda r: ("w", S(), r.choice([0, 0, 1, 1, 7]), 0)), (3, lambda r: ("w", S(), r.choice([2, 3, 4, 5, 6]), us())), (1, lambda r: ("any", r.randrange(2))), (1, lambda r: ("all", r.randrange(2))),
                   (3, lambda r: ("scb", S(), r.choice([1, 2, 2, 2, 3, 4, 5]))), (1.4, lambda r: ("set", S())), (.6, lambda r: ("rdy", S()))]
            th = seqs(r, r.choice([1, 2, 2, 3, 3]), 1, 4, ops)
            if r.random() < .6:        # every source gets its result in the end
                x = r.choice(th); x += [("set", 1), ("set", 2)]
            progs.append(prog_line(i, {"k0": r.randrange(3), "k1": r.randrange(3)}, th))
        c.run(v.name, "WaitCbTrace", progs, iters=80 if q else 1500, dcap=60 if q else 1000, dbound=2 if q else 3, tmax=7 if q else 60, consts=TC, maxtraces=4500 if q else 80000)

        def f(x):
            o, a, b, d = x[1], x[2], x[3], x[4]
            return ("w", a, r.choice([2, 3, 5, 6]) if b else r.choice([0, 1, 7]), 700) if o == "w" else (o, a, b, 0)
        sc = [hist_to_prog(10000 + i, {"k0": 1, "k1": [0, 2][i % 2]}, h, 2, f) for i, h in enumerate(g.result())]
        c.scripted += len(sc)
        c.run(v.name, "WaitCbTrace", sc, iters=1, dcap=0, tmax=8, consts=TC, tag=v.name + "-script", race=(100, 6) if q else (1500, 40), maxtraces=3000 if q else 60000)
    c.expect("ret:w=ok", "ret:w=timeout", "ret:w=thrown", "ret:any=1", "ret:any=2", "ret:any=thrown", "ret:all=ok", "ret:all=thrown", "ret:set=ok", "ret:set=already", "ret:rdy=true", "ret:rdy=false", "ev:cb", "ev:cbx", "ev:leak")
