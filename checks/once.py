from common import *
TC = "CONSTANTS Threads={1,2,3,4}\nFlags={0,1,2,3}\n"


def o01(c):
    mc = "INIT Init\nNEXT Next\nINVARIANT Once\nINVARIANT Alone\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxFail=%d Threads={%s} Flags={%s}\n"
    c.mc("OnceMC", mc % (2, "1,2,3", "0,1"), "once")
    c.mc("OnceMC", "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxFail=1 Threads={1,2} Flags={0}\n", "live", workers=2)
    if not c.quick:
        c.mc("OnceMC", mc % (3, "1,2,3,4", "0,1"), "once4", workers=6)
    vs = [Variant("atomic", "once", [V4]), Variant("epoch", "once", [V4, "-DBOOST_THREAD_DONT_USE_ATOMIC"]), Variant("old", "once", [V2])]
    if not c.quick:
        vs += [Variant("epoch2", "once", [V2, "-DBOOST_THREAD_DONT_USE_ATOMIC"])]
    c.build(vs)
    r = c.rng
    for v in vs:
        progs = []
        for i in range(120 if c.quick else 800):
            nf = r.choice([1, 1, 2, 3])
            th = seqs(r, r.choice([2, 3, 3, 4]), 1, 3, [(1, lambda r: ("once", r.randrange(nf), r.choice([0, 0, 1, 2, 2, 3, 4, 5]), r.randrange(4)))])
            for t in th:
                t.append(("once", 0, 0, 0))
            progs.append(prog_line(i, {}, th))
        c.run(v.name, "OnceTrace", progs, iters=120 if c.quick else 2000, dcap=80 if c.quick else 2000, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=TC, maxtraces=6000 if c.quick else 80000)
    c.expect("ret:once=ok", "ret:once=thrown", "ev:begin", "ev:fail")
