from common import *

T4 = "CONSTANTS Threads={1,2,3,4}\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"


def b01(c):
    mc = "INIT Init\nNEXT Next\nINVARIANT OneLeader\nINVARIANT OneRun\nINVARIANT Waiting\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxGen=%d MaxN=%d Depth=0 Threads={%s}\n"
    c.mc("BarrierMC", mc % (2, 3, "1,2,3"), "barrier")
    c.mc("BarrierMC", "SPECIFICATION FairSpec\nPROPERTY Live\nPROPERTY LiveLead\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxGen=2 MaxN=2 Depth=0 Threads={1,2}\n", "live", workers=2)
    if not c.quick:
        c.mc("BarrierMC", mc % (3, 4, "1,2,3,4"), "barrier4", workers=6)
    vs = [Variant("v4", "barrier", [V4]), Variant("noint", "barrier", [V4, NOINT])] + ([] if c.quick else [Variant("v2", "barrier", [V2])])
    c.build(vs)
    r = c.rng
    for v in vs:
        progs = []
        for i in range(180 if c.quick else 900):
            k = i % 9
            if i % 2:       # every thread takes part in every generation
                n = r.choice([1, 2, 3, 3, 4]); cfg = {"n": n, "k": k, "hb": 1}
                g = r.randint(1, 4)
                th = [[("w", r.choice([0, 0, 0, 1])) for _ in range(g)] for _ in range(n)]
            else:
                n = r.choice([1, 2, 2, 3]); cfg = {"n": n, "k": k}
                if k in (2, 4, 7):
                    cfg["n2"] = r.choice([1, 2, 3])
                th = seqs(r, r.choice([2, 3, 4]), 1, 4, [(6, lambda r: ("w", r.choice([0, 0, 1]))), (1, lambda r: ("sleep", r.choice([100, 300, 400]))), (1, lambda r: ("zero", r.randrange(9)))])
            if r.random() < .3:
                cfg["slow"] = 1
            progs.append(prog_line(i, cfg, th))
        c.run(v.name, "BarrierTrace", progs, iters=100 if c.quick else 2000, dcap=60 if c.quick else 2000, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=T4, maxtraces=8000 if c.quick else 100000)
    c.expect("ret:w=true", "ret:w=false", "ret:w=none", "ev:fct", "ret:zero=thrown")


def b02(c):
    mc = "INIT Init\nNEXT Next\nINVARIANT NonNeg\nINVARIANT Through\nINVARIANT NoneLeft\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxNow=%d MaxN=%d MaxReset=%d Depth=0 Threads={%s}\n"
    c.mc("LatchMC", mc % (1, 2, 1, "1,2,3") if c.quick else mc % (2, 3, 2, "1,2,3"), "latch", workers=6)
    c.mc("LatchMC", "SPECIFICATION FairSpec\nPROPERTY Live\nPROPERTY LiveZero\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxNow=1 MaxN=2 MaxReset=0 Depth=0 Threads={1,2}\n", "live", workers=2)
    cm = "INVARIANT Once\nINVARIANT NonNeg\nINVARIANT Through\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d MaxRuns=2 Threads={%s}\n"
    c.mc("CLatchMC", "INIT Init\nNEXT Next\n" + cm % ((2, "1,2,3") if c.quick else (3, "1,2,3,4")), "clatch")
    c.mc("CLatchMC", "SPECIFICATION FairSpec\nPROPERTY Live\n" + cm % (2, "1,2"), "clive", workers=2)
    g = c.gen("LatchMC", GENC + "CONSTANTS MaxNow=1 MaxN=2 MaxReset=1 Depth=%d Threads={1,2,3}\n" % (6 if c.quick else 9), "latch", limit=700 if c.quick else 8000)
    vs = [Variant("v4", "latch", [V4]), Variant("noint", "latch", [V4, NOINT]), Variant("cl", "clatch", [V4]), Variant("clknown", "clatch", [V4])] + ([] if c.quick else [Variant("v2", "latch", [V2])])
    c.build(vs)
    r = c.rng
    for v in vs:
        if v.driver != "latch":
            continue
        progs = []
        for i in range(180 if c.quick else 900):
            n = r.choice([0, 1, 1, 2, 2, 3])
            cfg = {"n": n}
            if i % 2:
                cfg["hb"] = 1
            ops = [(3, ("wait",)), (1, ("try",)), (3, ("cd",)), (1, ("sig",)), (2, ("tcd",)), (2, ("cdw",)), (1, ("sync",)),
                   (3, lambda r: (r.choice(["for", "forms", "until", "suntil", "cuntil"]), 0, dur(r)))]
            if not i % 4:
                ops.append((2, lambda r: ("reset", r.choice([1, 2]))))
            th = seqs(r, r.choice([2, 3, 3, 4]), 1, 3, ops)
            progs.append(prog_line(i, cfg, th))
        c.run(v.name, "LatchTrace", progs, iters=100 if c.quick else 2000, dcap=60 if c.quick else 1500, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=T4, maxtraces=8000 if c.quick else 100000)
        sc = [hist_to_prog(10000 + i, {"n": h[0][0]}, h[1:], 3) for i, h in enumerate(g.result()) if len(h) > 1]
        c.scripted += len(sc)
        c.run(v.name, "LatchTrace", sc, iters=1, dcap=0, tmax=10, consts=T4, tag=v.name + "-script")
    progs = []
    for i in range(120 if c.quick else 600):
        cfg = {"n": r.choice([1, 1, 2, 3]), "k": i % 4}
        if i % 3 == 0:
            cfg["rs"] = r.choice([1, 2]) if cfg["k"] else 0
        th = seqs(r, r.choice([2, 3, 4]), 1, 3, [(4, ("wait",)), (2, ("cd",)), (1, ("sig",)), (2, ("cdw",)), (1, ("sync",))])
        progs.append(prog_line(i, cfg, th))
        if i % 6 == 5:
            progs[-1] = prog_line(i, {"n": 1, "k": i % 4}, [[(r.choice(["for", "until"]), 0, 20000000)] for _ in range(r.choice([1, 2]))] + [[("cd",)]])
    c.run("cl", "CLatchTrace", progs, iters=60 if c.quick else 1000, dcap=40 if c.quick else 500, dbound=2, tmax=8 if c.quick else 60, consts=T4, maxtraces=6000 if c.quick else 60000)
    known = [prog_line(0, {"n": 1, "raw": 1}, [[("wait",), ("wait",)], [("cd",)]]), prog_line(1, {"n": 1, "raw": 1}, [[("try",)]]),
             prog_line(2, {"n": 1, "raw": 1}, [[("for", 0, 1000)]]), prog_line(3, {"n": 1, "raw": 1}, [[("cd",)]])]
    c.run("clknown", "CLatchTrace", known, iters=5, dcap=5, dbound=1, tmax=8, consts=T4)
    c.expect("ret:wait=ok", "ret:wait=timeout", "ret:try=true", "ret:try=false", "ret:cd=ok", "ret:cdw=ok", "ret:tcd=true", "ret:tcd=false", "ret:reset=ok", "ev:fct")
