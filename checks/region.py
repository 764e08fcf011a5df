from common import *

TC = "CONSTANTS Threads={1,2,3}\nTasks={1,2,3,4,5,6,7,8}\n"
INV = "INVARIANT Joined\nINVARIANT JoinedRet\nINVARIANT Once\nINVARIANT Told\nINVARIANT Canc\nINVARIANT Stuck\nPROPERTY NoneRunsTwice\nPROPERTY Refused\nVIEW View\nCHECK_DEADLOCK FALSE\n"


def K(threads=1, tasks=3, runs=3, waits=2, nested="{}", depth=0):
    return threads_const(threads, Tasks="{%s}" % ",".join(map(str, range(1, tasks + 1))), MaxRuns=runs, MaxWaits=waits, NestedTasks=nested, Depth=depth)


def r01(c):
    q = c.quick
    c.mc("RegionMC", "INIT Init\nNEXT Next\n" + INV + K(1, 3, 3, 1 if q else 3), "region", workers=3)
    c.mc("RegionMC", "INIT Init\nNEXT Next\n" + INV + K(1, 2 if q else 3, 2 if q else 3, 1, "{1}"), "nested", workers=3)
    c.mc("RegionMC", "INIT Init\nNEXT Next\n" + INV + K(2, 2, 2, 1 if q else 2), "two", workers=3)
    c.mc("RegionMC", "SPECIFICATION FairSpec\nPROPERTY Live\nVIEW View\nCHECK_DEADLOCK FALSE\n" + K(1, 2, 2, 1), "live", workers=2)
    g = c.gen("RegionMC", "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n" + K(2, 4, 99, 99, depth=7 if q else 9), "region", limit=300 if q else 4000)
    vs = [Variant("v5", "region", [V5]), Variant("noex", "region", [V4, "-DNOEX"])] + ([] if q else [Variant("v4", "region", [V4])])
    c.build(vs)
    r = c.rng
    for v in vs:
        progs = []
        for i in range(200 if q else 1200):
            nt = r.choice([1, 1, 1, 2, 2, 3]); k = r.choice([0, 0, 0, 1, 2, 2]) if v.name != "noex" else 3
            nested = 0; th = []
            for t in range(nt):
                a = []
                for _ in range(r.choice([1, 1, 2])):
                    a.append(("reg", r.randrange(2)))
                    for _ in range(r.randint(0, 4)):
                        z = r.random()
                        if z < .66:
                            b = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 5])
                            if b == 4:
                                nested += 1; b += 16 * r.choice([0, 0, 1, 1, 2, 3, 5])
                            a.append(("run", b, r.choice([0, 1, 1])))
                        elif z < .88:
                            a.append(("wait", r.choice([0, 1, 1])))
                        elif z < .93:
                            a.append(("thr",))
                        else:
                            a.append(("idle",))
                    a.append(("end",))
                th.append(a)
            progs.append(prog_line(i, {"k": k, "n": nested + r.choice([1, 1, 2])}, th))
        c.run(v.name, "RegionTrace", progs, iters=80 if q else 1500, dcap=60 if q else 1000, dbound=2 if q else 3, tmax=7 if q else 60, consts=TC, maxtraces=4000 if q else 80000)

        def f(x):
            return {"reg": ("reg", r.randrange(2)), "run": ("run", r.choice([0, 0, 0, 1, 2, 3, 5]), r.randrange(2)), "wait": ("wait", r.randrange(2)), "end": ("end",)}[x[1]]
        sc = [hist_to_prog(10000 + i, {"k": i % 3 if v.name != "noex" else 3, "n": 1 + i % 2}, h, 2, f) for i, h in enumerate(g.result())]
        c.scripted += len(sc)
        c.run(v.name, "RegionTrace", sc, iters=1, dcap=0, tmax=8, consts=TC, tag=v.name + "-script", race=(100, 6) if q else (1500, 40), maxtraces=3000 if q else 60000)
    c.expect("ret:reg=ok", "ret:reg=list", "ret:run=ok", "ret:run=canceled", "ret:wait=ok", "ret:wait=canceled", "ev:start", "ev:end", "ev:leak")
