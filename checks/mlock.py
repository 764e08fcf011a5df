from common import *
TC = "CONSTANTS Threads={1,2,3,4}\nMs={1,2,3,4,5}\n"


def cfg(kind, n, m, depth=0):
    return ("INIT Init\nNEXT %s\nINVARIANT AllOrNone\n%sCHECK_DEADLOCK FALSE\n" % (kind, "INVARIANT NoDeadlock\n" if kind == "CNext" else "")
            if kind != "G" else "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n") + \
        threads_const(n, Ms="{%s}" % ",".join(map(str, range(1, m + 1))), Depth=depth) + "Seqs <- Seqs%d\n" % m


def l02(c):
    c.mc("MultiLockMC", cfg("Next", 2, 2), "any2")
    c.mc("MultiLockMC", cfg("CNext", 2, 3), "careful", workers=3)
    if not c.quick:
        c.mc("MultiLockMC", cfg("CNext", 3, 3), "careful3", workers=4)
        c.mc("MultiLockMC", cfg("Next", 2, 3), "any3", workers=4)
    g = c.gen("MultiLockMC", cfg("G", 3, 2, 7 if c.quick else 9), "multi", limit=500 if c.quick else 6000)
    v = Variant("v4", "mlock", [V4])
    c.build([v])
    r = c.rng

    def seq(nm, lo=2):
        n = r.randint(min(lo, nm), nm)
        return int("".join(map(str, r.sample(range(1, nm + 1), n))))

    progs = []
    for i in range(160 if c.quick else 1000):
        kind = [0, 0, 1, 2][i % 4]
        nm = r.choice([2, 2, 3, 3, 4, 5])
        th = []
        for t in range(r.choice([2, 2, 3, 3])):
            a = []
            for _ in range(r.choice([1, 2, 2])):
                x = r.random()
                if x < .5:
                    s = seq(nm); a.append(("lockn", s, r.choice([0, 0, 1])))
                elif x < .75:
                    s = seq(nm); a.append(("tryn", s, r.choice([0, 0, 1])))
                else:
                    s = r.randint(1, nm); a.append((r.choice(["lock", "try"]), s))
                if r.random() < .9:
                    ds = list(str(s)); r.shuffle(ds)
                    a += [("unlock", int(d)) for d in ds]
            th.append(a + [("unlock", d) for d in range(1, nm + 1)])
        progs.append(prog_line(i, {"k": kind}, th))
    c.run(v.name, "MultiLockTrace", progs, iters=120 if c.quick else 1500, dcap=60 if c.quick else 1000, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=TC, maxtraces=8000 if c.quick else 80000)
    # lockables that refuse a few times or throw
    fp = []
    for i in range(400 if c.quick else 4000):
        nm = r.choice([2, 3, 4, 5]); a = []
        for _ in range(2):
            for m in range(1, nm + 1):
                a.append(("env", m, r.choice([0, 0, 0, 1, 2, -1, -2]) if r.random() < .6 else 0))
            if r.random() < .3:
                a.append(("lock", r.randint(1, nm)))
            s = seq(nm); a.append((r.choice(["lockn", "tryn"]), s, r.choice([0, 1])))
            a += [("env", m, 0) for m in range(1, nm + 1)]
            a += [("unlock", m) for m in range(1, nm + 1)]
        fp.append(prog_line(i, {"k": 4}, [a]))
    c.run(v.name, "MultiLockTrace", fp, iters=1, dcap=0, tmax=8, consts=TC, tag="throwing")
    sc = [hist_to_prog(10000 + i, {"k": [0, 1, 2][i % 3]}, h, 3, lambda x: (x[1], x[2], i // 3 % 2)) for i, h in enumerate(g.result())]
    c.scripted += len(sc)
    c.run(v.name, "MultiLockTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag="script")
    c.expect("ret:lockn=ok", "ret:tryn=ok", "ret:tryn=fail0", "ret:tryn=fail1", "ret:tryn=fail2", "ret:lockn=thrown", "ret:tryn=thrown")
