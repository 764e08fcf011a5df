from common import *

TC = "CONSTANTS Threads={1,2,3,4,5}\nTasks={1,2,3,4,5,6,7,8,9,10}\n"
MCI = "INIT Init\nNEXT Next\nINVARIANT Accepted\nINVARIANT Ended\nINVARIANT Dropped\nINVARIANT Serial\nINVARIANT Workers\nINVARIANT EntryFirst\nPROPERTY Once\nPROPERTY NoneAfterClose\nPROPERTY Refused\nPROPERTY Inline\nPROPERTY NotEarly\nPROPERTY One\nCHECK_DEADLOCK FALSE\n"
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"


def S(x):
    return "{%s}" % ",".join('"%s"' % o for o in x)


def mc(n, kind, ops, nested=(), workers=1, tasks=2, maxops=2, now=0, depth=0, entry=False):
    return threads_const(n, Tasks="{%s}" % ",".join(str(i) for i in range(1, tasks + 1)), Kind='"%s"' % kind, N=workers,
                         EntryFn="TRUE" if entry else "FALSE", Ops=S(ops), Nested=S(nested), MaxOps=maxops, MaxNow=now, Depth=depth)


def hist(c, g, cfgs, n, start=100000):
    out, pid, r = [], start, c.rng
    for h in g.result():
        for cfg in cfgs:
            form = r.randrange(5)

            def name(x):
                o, a = x[1], x[2]
                if o == "open":
                    return ("open",)
                if o in ("submit", "gsubmit", "xsubmit"):
                    b = {"submit": r.choice([0, 0, 9]), "gsubmit": 3, "xsubmit": 0}[o]
                    return ("submit", b | (a * 1000) << 4, 1 if o == "xsubmit" else 0, (8 if a else 0) | form & 7)
                if o in ("resch", "resch2"):
                    return ("resch", 0, 2 if o == "resch2" else r.choice([0, 1]))
                return (o,)
            out.append(hist_to_prog(pid, dict(cfg), h, n, name)); pid += 1
    return out


def base_cfg(r, k):
    return {"k": k, "n": r.choice([1, 1, 2, 2, 3]), "w": r.choice([0, 0, 1, 2]) if k < 6 else 0, "e": r.choice([0, 0, 0, 1, 2]) if k == 0 else 0,
            "u": r.choice([0, 0, 1, 2]) if k == 4 else r.choice([0, 0, 1]) if k == 5 else 0, "fc": 0}


def bodies(r, k):
    c = [0] * 6 + [1, 3, 3, 4, 4, 7, 8, 9]
    if k in (0, 1):
        c += [2, 2, 5, 5, 6, 6]
    if k in (0, 6):
        c += [2]
    if k in (5,):
        c = [x for x in c if x != 3]
    if k == 8:                             # (the scheduler may be gone when the pool runs the task)
        c = [x for x in c if x not in (4, 7, 8)]
    return r.choice(c)


def randoms(c, kinds, n, start=0):
    r, progs = c.rng, []
    for i in range(n):
        k = kinds[i % len(kinds)]; cfg = base_cfg(r, k); timed = k >= 6
        us = lambda: r.choice([0, 0, 1, 700, 700, 1500, 99999, 100001, -500]) if timed else 0
        jp = k == 10 and r.random() < .5
        sub = lambda r: ("submit", bodies(r, k) | max(0, us()) << 4, 1 if r.random() < .08 else 0, r.randrange(8) | (8 if r.random() < .5 and not jp else 0) if timed else r.randrange(5))
        ops = [(7, sub), (.6, ("closed",)), (.5, ("open",)), (.35, ("close",))]
        if k in (0, 1):
            ops += [(2 if k == 1 else 1, lambda r: ("resch", 0, r.choice([0, 0, 1, 2, 3])))]
        if k in (2, 3):
            ops += [(.3, ("resch", 0, 0))]
        if k == 0:
            ops += [(.15, ("pint",)), (.5, ("yield",))]
        if k == 1:
            ops += [(1.2, ("loop",)), (1.2, ("runq",))]
        if k == 2:
            ops += [(.5, lambda r: ("failc", 1))]
        if timed or r.random() < .3:
            ops += [(1, lambda r: ("sleep", r.choice([700, 1500, 99999])))]
        if jp:
            ops.append((1, lambda r: ("jump", 0, r.choice([-400, -150, -100, 100, 500]))))
        nt = r.choice([1, 1, 2, 2, 3])
        th = seqs(r, nt, 1, 4, ops)
        if k == 1 and r.random() < .6:        # a loop that ends
            th.append([("loop",)]); th[0].append(("close",)); nt += 1
        if k == 0 and r.random() < .3:         # (one join at a time)
            x = r.choice(th); x.insert(r.randrange(len(x) + 1), ("pjoin", r.choice([0, 1])))
        if r.random() < .85:                   # the executor is destroyed when everybody is done with it
            for x in th:
                x.append(("fin",))
        progs.append(prog_line(start + i, cfg, th))
    return progs


def fixed(c, kinds, start=60000):
    """programs for the corners: submit and destroy at once, constructors that fail, an executor used while it is destroyed"""
    out = []
    for k in kinds:
        for n in (1, 2):
            for w in ((0, 1, 2) if k < 6 else (0,)):
                for b in ((0,), (0, 0), (0, 0, 0), (4, 0), (8, 8), (1, 4), (7, 0)) + (((2, 0), (2, 2, 0), (5, 0, 0)) if k in (0, 6) else ()):
                    if k == 8 and set(b) & {4, 7, 8}:
                        continue
                    for us in ((0,) if k < 6 else (0, 700)):
                        out.append(prog_line(start + len(out), {"k": k, "n": n, "w": w, "e": 0, "u": 0, "fc": 0}, [[("submit", x | us << 4, 0, j % 3) for j, x in enumerate(b)] + [("fin",)]]))
        if k in (0, 6):
            for n in (1, 2, 3):
                for fc in range(1, n + 1):
                    for w in (0, 1) if k == 0 else (0,):
                        for e in (0, 1, 2) if k == 0 else (0,):
                            out.append(prog_line(start + len(out), {"k": k, "n": n, "w": w, "e": e, "u": 0, "fc": fc}, [[("closed",)]]))
    return out


def go(c, vs, kinds, g, gcfgs, n):
    c.build(vs)
    progs = randoms(c, kinds, n) + fixed(c, kinds)
    for v in vs:
        c.run(v.name, "ExecutorTrace", progs, iters=60 if c.quick else 1200, dcap=40 if c.quick else 1200, dbound=2 if c.quick else 3, tmax=6 if c.quick else 90, consts=TC, maxtraces=5000 if c.quick else 100000, tag=v.name)
        for name, gg, cfgs in zip(range(9), g, gcfgs):
            sc = hist(c, gg, cfgs, 2, 100000 * (name + 1)); c.scripted += len(sc)
            c.run(v.name, "ExecutorTrace", sc, iters=1, dcap=0, tmax=6, consts=TC, tag=v.name + "-script%d" % name, race=(150, 8) if c.quick else (3000, 60), maxtraces=2500 if c.quick else 60000)


def variants(c):
    return [Variant("v5", "exec", [V5])] + ([] if c.quick else [Variant("v4", "exec", [V4])])


def e01(c):
    q = c.quick
    c.mc("ExecutorMC", MCI + mc(2, "pool", ["submit", "isubmit", "resch", "close", "destroy", "pint"], ["close"] if q else ["submit", "resch", "close"], 2, 2, 1 if q else 2), "pool", workers=4)
    c.mc("ExecutorMC", MCI + mc(2, "pool", ["submit", "gsubmit", "destroy"], [], 2, 2, 2, entry=True), "poolentry", workers=2)
    c.mc("ExecutorMC", MCI + mc(2, "loop", ["submit", "resch", "resch2", "loop", "runq", "close", "destroy"], ["submit"], 1, 2 if q else 3, 2), "loop", workers=4)
    c.mc("ExecutorMC", MCI + mc(2, "thread", ["submit", "xsubmit", "close", "destroy", "resch"], ["close"], 1, 2 if q else 3, 2), "thread", workers=2)
    c.mc("ExecutorMC", MCI + mc(2, "inline", ["submit", "close", "closed", "destroy"], ["submit"], 1, 2 if q else 3, 2), "inline", workers=2)
    c.mc("ExecutorMC", LIVE + mc(2, "pool", ["submit", "gsubmit", "close", "resch"], [], 1, 2, 1 if q else 2), "live", workers=2)
    d = 6 if q else 7
    g = [c.gen("ExecutorMC", GENC + mc(2, "pool", ["submit", "gsubmit", "resch", "close", "closed", "xsubmit"], [], 1, 3, 2, depth=d), "pool", limit=300 if q else 4000),
         c.gen("ExecutorMC", GENC + mc(2, "loop", ["submit", "gsubmit", "resch", "resch2", "loop", "runq", "close", "xsubmit"], [], 1, 3, 2, depth=d), "loop", limit=300 if q else 4000)]
    go(c, variants(c), [0, 1, 0, 2, 0, 1, 3], g, [[{"k": 0, "n": 1, "w": w, "e": 0, "u": 0, "fc": 0} for w in (0, 2)], [{"k": 1, "n": 1, "w": w, "e": 0, "u": 0, "fc": 0} for w in (0, 1)]], 110 if q else 700)
    c.expect("ret:submit=ok", "ret:submit=closed", "ret:submit=exc", "ret:submit=noth", "ret:resch=true", "ret:resch=false", "ret:loop=ok", "ret:runq=ok", "ret:destroy=ok", "ret:pjoin=ok", "ret:pint=ok", "ev:start", "ev:end", "ev:entry", "ev:leak", "ev:nothreads")


def e02(c):
    q = c.quick
    c.mc("ExecutorMC", MCI + mc(2, "serial", ["submit", "xsubmit", "close", "closed", "destroy"], ["submit", "close"], 2, 3, 2), "serial", workers=4)
    c.mc("ExecutorMC", LIVE + mc(2, "serial", ["submit", "gsubmit", "close"], [], 2, 3, 1 if q else 2), "live", workers=2)
    g = [c.gen("ExecutorMC", GENC + mc(2, "serial", ["submit", "gsubmit", "close", "closed", "xsubmit"], [], 2, 4, 2, depth=6 if q else 8), "serial", limit=300 if q else 4000)]
    go(c, variants(c), [4, 5], g, [[{"k": 4, "n": 1, "w": 0, "e": 0, "u": 0, "fc": 0}, {"k": 5, "n": 2, "w": 0, "e": 0, "u": 0, "fc": 0}]], 90 if q else 600)
    c.expect("ret:submit=ok", "ret:submit=closed", "ret:submit=exc", "ret:destroy=ok", "ev:start", "ev:end", "ev:leak")


def e03(c):
    q = c.quick
    c.mc("ExecutorMC", MCI + mc(2, "timed", ["submit", "close", "destroy"], [], 2, 2, 2, now=1 if q else 2), "timed", workers=4)
    c.mc("ExecutorMC", LIVE + mc(2, "timedon", ["submit", "gsubmit"], [], 1, 2, 1, now=1), "live", workers=2)
    g = [c.gen("ExecutorMC", GENC + mc(2, "timed", ["submit", "gsubmit", "close"], [], 1, 3, 2, now=2, depth=6 if q else 7), "timed", limit=300 if q else 4000)]
    go(c, variants(c), [6, 7, 8, 9, 10], g, [[{"k": k, "n": 1, "w": 0, "e": 0, "u": 0, "fc": 0} for k in (6, 7, 8, 9)]], 100 if q else 600)
    c.expect("ret:submit=ok", "ret:submit=closed", "ret:submit=exc", "ret:destroy=ok", "ev:start", "ev:end", "ev:leak", "ev:jump")
