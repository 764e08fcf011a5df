from common import *

MC = "FutureMC"
INV = "".join("INVARIANT %s\n" % i for i in "OneOwner OneFuture Broken NoOrphan AtExit AfterParent LazyRuns Sets".split()) + "CHECK_DEADLOCK FALSE\n"
MCC = "INIT Init\nNEXT Next\nPROPERTY Final\nPROPERTY Sound\n" + INV
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"
TC = "CONSTANTS Threads={1,2,3,4,5}\nProms={0,1,2}\nTasks={0,1,2}\nFuts={0,1,2,3,4,5}\nWraps={0,1}\n"


def K(ops, threads=2, proms=1, tasks=1, futs=1, wraps=1, inv=True, lazy=False, mo=2, now=0, depth=0):
    s = lambda a, n: "{%s}" % ",".join(str(i) for i in range(a, n))
    return "CONSTANTS Threads=%s\nProms=%s\nTasks=%s\nFuts=%s\nWraps=%s\nInv=%s\nLazy=%s\nOps={%s}\nMaxOps=%d\nMaxNow=%d\nDepth=%d\n" % (
        s(1, threads + 1), s(0, proms), s(0, tasks), s(0, futs), s(0, wraps), str(inv).upper(), str(lazy).upper(), ",".join('"%s"' % o for o in ops.split()), mo, now, depth)


P = lambda r: r.choice([[0], [0, 0, 1], [0, 0, 1, 2]][r.n - 1])
F = lambda r: r.randrange(r.nf)
W = lambda r: r.randrange(2)
FORM = lambda r: r.randrange(7)
SL = lambda r: r.choice([0, 0, 1, 3])


def mask(r, hi=3):
    m = 0
    for _ in range(r.choice([1, 2, 2, 3][:hi + 1])):
        m |= 1 << F(r)
    return m


POL = lambda r: r.choice([0, 0, 1, 1, 2, 3])
CPOL = lambda r: r.choice([0, 0, 1, 3, 4, 4, 5, 5])
OPS = {
    "pnew": lambda r: ("pnew", P(r), r.randrange(2), 0), "pget": lambda r: ("pget", P(r), F(r), 0),
    "pset": lambda r: ("pset", P(r), r.randrange(3), 0), "pexc": lambda r: ("pexc", P(r), r.randrange(2), 0),
    "psetx": lambda r: ("psetx", P(r), 0, 0), "pexcx": lambda r: ("pexcx", P(r), r.randrange(2), 0),
    "psetd": lambda r: ("psetd", P(r), 0, 0), "pexcd": lambda r: ("pexcd", P(r), r.randrange(2), 0), "pnot": lambda r: ("pnot", P(r), 0, 0),
    "pmove": lambda r: ("pmove", P(r), P(r), 0), "pswap": lambda r: ("pswap", P(r), P(r), r.randrange(2)), "pdtor": lambda r: ("pdtor", P(r), 0, 0),
    "tnew": lambda r: ("tnew", P(r), r.randrange(6) + 10 * SL(r), 0), "tvalid": lambda r: ("tvalid", P(r), 0, 0), "tget": lambda r: ("tget", P(r), F(r), 0),
    "trun": lambda r: ("trun", P(r), 0, 0), "trunx": lambda r: ("trunx", P(r), 0, 0), "tmove": lambda r: ("tmove", P(r), P(r), r.randrange(2)),
    "tswap": lambda r: ("tswap", P(r), P(r), r.randrange(2)), "tdtor": lambda r: ("tdtor", P(r), 0, 0),
    "anew": lambda r: ("anew", F(r), POL(r), r.randrange(4) + 10 * SL(r)), "mkr": lambda r: ("mkr", F(r), r.randrange(3), r.randrange(4)),
    "then": lambda r: ("then", F(r), F(r), CPOL(r) + 10 * SL(r)), "fallb": lambda r: ("fallb", F(r), F(r), r.randrange(2)),
    "unw": lambda r: ("unw", F(r), W(r), r.randrange(2)), "wset": lambda r: ("wset", F(r), W(r), r.choice([0, 0, 0, 1, 2])),
    "fget": lambda r: ("fget", F(r), 0, 0), "fgor": lambda r: ("fgor", F(r), r.randrange(2), 0), "fwait": lambda r: ("fwait", F(r), 0, 0), "fexp": lambda r: ("fexp", F(r), 0, 0),
    "ftw": lambda r: ("ftw", F(r), dur(r), FORM(r)), "look": lambda r: (r.choice(["fvalid", "fready", "fhasv", "fhase", "fst"]), F(r), 0, 0),
    "fmove": lambda r: ("fmove", F(r), F(r), r.randrange(2)), "fswap": lambda r: ("fswap", F(r), F(r), 0), "fshare": lambda r: ("fshare", F(r), F(r), r.randrange(3)),
    "scopy": lambda r: ("scopy", F(r), F(r), r.randrange(2)), "fdtor": lambda r: ("fdtor", F(r), 0, 0),
    "wany": lambda r: ("wany", mask(r), r.randrange(2), 0), "wall": lambda r: ("wall", mask(r), r.randrange(2), 0),
    "whall": lambda r: ("whall", mask(r), r.randrange(2), 0), "whany": lambda r: ("whany", mask(r), r.randrange(2), 0),
    "vwait": ("vwait", 0, 0, 0), "vready": ("vready", 0, 0, 0), "vtw": lambda r: ("vtw", 0, dur(r), FORM(r)), "vget": ("vget", 0, 0, 0),
    "sleep": lambda r: ("sleep", 0, r.choice([1, 300, 700, 1500]), 0), "jump": lambda r: ("jump", 0, r.choice([-2000, -50, 50, 150, 2000, 40000]), 0),
    # sequences
    "prom": lambda r: (lambda p, f: [("pnew", p, r.randrange(2), 0), ("pget", p, f, 0)])(P(r), F(r)),
    "task": lambda r: (lambda p, f: [("tnew", p, r.randrange(6) + 10 * SL(r), 0), ("tget", p, f, 0)])(P(r), F(r)),
    "sprom": lambda r: (lambda p, f, g: [("pnew", p, 0, 0), ("pget", p, f, 0), ("fshare", f, g, r.randrange(3))])(P(r), F(r), F(r)),
    "chain": lambda r: (lambda f, g: [("then", f, g, CPOL(r) + 10 * SL(r)), ("then", g, f, CPOL(r) + 10 * SL(r))])(F(r), F(r)),
    "asyn": lambda r: [("anew", F(r), r.choice([0, 0, 1, 3]), r.randrange(4) + 10 * SL(r))],
    "wrapd": lambda r: (lambda f, g: [("unw", f, 0, r.randrange(2)), ("anew", g, r.choice([0, 3]), 10 * SL(r)), ("wset", g, 0, 0)])(F(r), F(r)),
}


def rand(c, pid, cfg, w, start, nth=None, lo=2, hi=5, nf=None, np_=None):
    """the first thread makes things (start: weights), all go on with operations by weight"""
    r = c.rng
    r.nf = nf or r.choice([1, 2, 3, 3, 4])
    r.n = np_ or r.choice([1, 2, 2, 3])
    nth = nth or r.choice([1, 2, 2, 3, 3])

    def pick(w):
        x = r.uniform(0, sum(w.values()))
        for o, a in w.items():
            x -= a
            if x <= 0:
                break
        o = OPS[o]
        o = o(r) if callable(o) else o
        return list(o) if isinstance(o, list) else [o]
    th = []
    for t in range(nth):
        l = []
        if t == 0 or r.random() < .25:
            for _ in range(r.choice([1, 1, 2])):
                l += pick(start)
        for _ in range(r.randint(lo, hi)):
            l += [("idle",)] if r.random() < .07 else pick(w)
        th.append(l)
    return prog_line(pid, dict(cfg, bt=r.choice([0, 1, 1]), id0=r.randrange(3)), th)


def variants(c, names):
    d = {"i": [V4, "-DTY=0"], "v": [V4, "-DTY=1"], "r": [V4, "-DTY=2"], "m": [V4, "-DTY=3"], "i2": [V2, "-DTY=0"], "m2": [V2, "-DTY=3"], "v2": [V2, "-DTY=1"], "i3": [V3, "-DTY=0"], "x": [V4, "-DTY=0", "-DBOOST_THREAD_PROVIDES_EXECUTORS"],
         "xv": [V5, "-DTY=1"], "x5": [V5, "-DTY=0"], "r3": [V3, "-DTY=2"]}
    vs = []
    for n in names.split() if c.quick else names.split() + [n for n in ("i", "v", "r", "m", "i2", "i3", "m2", "xv") if n not in names.split()]:
        v = Variant("f" + n, "fut", d[n])
        ver = int(n[-1]) if n[-1] in "235" else 4
        v.cfg = {"inv": int(ver >= 4), "lazy": int(ver == 2), "void": int("-DTY=1" in d[n])}
        v.exe = "EXECUTORS" in " ".join(d[n]) or ver == 5
        v.ver = ver; v.ty = int([x for x in d[n] if x.startswith("-DTY")][0][-1])
        vs.append(v)
    c.build(vs)
    return vs


def rename(c):
    """operations of generated histories, in one of the forms the driver knows"""
    r = c.rng

    def f(y):
        t, o, a, b, k = y
        if o == "end":
            return ("nop", 0, 0, 0)
        if o == "pnew":
            return (o, a, r.randrange(2), 0)
        if o == "pset":
            return (o, a, r.randrange(3), 0)
        if o in ("pexc", "pexcx", "pexcd"):
            return (o, a, r.randrange(2), 0)
        if o == "tnew":
            return (o, a, r.randrange(6), 0)
        if o in ("anew", "dnew"):
            return ("anew", a, b, r.randrange(4))
        if o in ("dthen", "sthen", "ithen"):
            return ("then", a, b, k)
        if o == "ftw":
            return (o, a, b, FORM(r))
        if o in ("fallb", "tmove", "tswap", "fmove", "pswap", "scopy"):
            return (o, a, b, r.randrange(2))
        if o == "fshare":
            return (o, a, b, r.randrange(3))
        if o == "mkr":
            return (o, a, b, r.randrange(4))
        if o == "unw":
            return (o, a, b, r.randrange(2))
        if o in ("wany", "wall", "whall", "whany", "fgor"):
            return (o, a, r.randrange(2), 0)
        return (o, a, b, k)
    return f


def go(c, v, progs, iters=60, dcap=30, tag=None):
    c.run(v.name, "FutureTrace", progs, iters=iters if c.quick else iters * 12, dcap=dcap if c.quick else dcap * 15, dbound=2 if c.quick else 3, tmax=5 if c.quick else 60, consts=TC, tag=tag, maxtraces=4500 if c.quick else 80000)


def scripts(c, v, g, nth, limit):
    hs = [h for h in g.result() if any(e[0] > 0 for e in h)]
    if len(hs) > limit:
        hs = c.rng.sample(hs, limit)
    sc = [hist_to_prog(10000 + i, dict(v.cfg, bt=c.rng.choice([0, 1]), id0=c.rng.randrange(3)), h, nth, rename(c)) for i, h in enumerate(hs)]
    c.scripted += len(sc)
    c.run(v.name, "FutureTrace", sc, iters=1, dcap=0, tmax=6, consts=TC, tag=v.name + "-script", race=(200, 10) if c.quick else (3000, 60))


def shared(c, pid, cfg, v):
    """the first thread makes states and hands out copies of the shared futures, then all work on them"""
    r = c.rng
    pre, ns = [], r.choice([1, 1, 2])
    for i in range(ns):
        k = r.choice("pad" + ("cce" if v.ver >= 4 else "")) if v.ty < 2 or v.ver >= 4 else r.choice("pa")
        if k == "a" or k == "d":
            pre.append(("anew", i, 1 if k == "d" else r.choice([0, 1]), r.randrange(4) + 10 * SL(r)))
        else:
            pre += [("pnew", i, r.randrange(2), 0), ("pget", i, i, 0)]
            if k in "ce":
                pre.append(("then", i, i, r.choice([1, 1, 4]) + 10 * SL(r)))
        pre.append(("fshare", i, i, r.randrange(3)))
    nc = 2
    own = {0: list(range(ns))}
    for t in range(1, nc + 1):
        own[t] = []
        for i in range(ns):
            pre.append(("scopy", i, ns + (t - 1) * ns + i, 0)); own[t].append(ns + (t - 1) * ns + i)
    th = [pre + [("idle",)]] + [[("idle",)] for _ in range(nc)]
    for t in range(nc + 1):
        for _ in range(r.randint(1, 3)):
            f = r.choice(own[t])
            k = r.choice("wwgttrrsanl")
            m = sum(1 << x for x in own[t])
            th[t].append({"w": ("fwait", f, 0, 0), "g": ("fget", f, 0, 0), "t": ("ftw", f, r.choice([0, 700, 1500, 99999]), FORM(r)), "r": ("fready", f, 0, 0), "s": ("pset", r.randrange(ns), r.randrange(3), 0), "n": ("pset", r.randrange(ns), 0, 0),
                          "a": ("wany", m, r.randrange(2), 0), "l": r.choice([("wall", m, r.randrange(2), 0), ("fst", f, 0, 0), ("fexp", f, 0, 0)])}[k])
        if t == 0 and r.random() < .7:
            th[0] += [("pset", i, 0, 0) for i in range(ns)]
    return prog_line(pid, dict(cfg, bt=r.choice([0, 1, 1]), id0=r.randrange(3)), th)


# what past defects needed (a program each; tried with many schedules like the others)
CASES = {
    "dwait": "anew 1 1 10,fshare 1 2 0,scopy 2 3 0,fwait 2 0 0;idle,ftw 3 100 0,ftw 3 100 0,fready 3 0 0",
    "cwait": "pnew 0 0 0,pget 0 0 0,then 0 1 1,fshare 1 2 0,scopy 2 3 0,fwait 2 0 0;idle,fready 3 0 0,idle,pset 0 0 0",
    "dupany": "pnew 0 0 0,pget 0 0 0,fshare 0 1 0,scopy 1 0 0,wany 3 0 0;idle,pset 0 0 0",
    "abba": "pnew 0 0 0,pget 0 0 0,fshare 0 1 0,scopy 1 0 0,scopy 1 3 0,pnew 1 0 0,pget 1 4 0,fshare 4 2 0,idle,wany 5 0 0;idle,wany 12 0 0;idle,idle,pset 0 0 0",
    "inh": "anew 3 3 3,then 3 2 5,ftw 2 99999 6,then 2 0 5",
}


def check(c, names, w, start, n=150, gens=(), nth=2, limit=300, nf=None, share=0, cases=()):
    for v in variants(c, names):
        ww = {o: x for o, x in w.items() if not (v.ver < 4 and o in ("then", "fallb", "unw", "wset", "whall", "whany", "vwait", "vready", "vtw", "vget", "chain", "wrapd"))}
        progs = [rand(c, i, dict(v.cfg, exe=c.rng.choice([1, 1, 2]) if v.exe else 0), ww, start, nf=nf) for i in range(n if c.quick else n * 6)]
        progs += [shared(c, 5000 + i, dict(v.cfg, exe=c.rng.choice([1, 1, 2]) if v.exe else 0), v) for i in range(share if c.quick else share * 6)]
        for i, n_ in enumerate(cases):
            l = CASES[n_]
            if "then" in l and (v.ver < 4 or v.ty == 2):
                continue
            progs += ["%d|%s|%s|" % (9000 + 2 * i + bt, ",".join("%s=%s" % kv for kv in dict(v.cfg, exe=int(v.exe), bt=bt, id0=0).items()), l) for bt in (0, 1)]
        go(c, v, progs)
        for g in gens:
            if v.name in ("fi", "fv", "fm", "fx"):
                scripts(c, v, g, nth, limit if c.quick else limit * 10)


PROM = {"prom": 1, "sprom": .3}
BASE = {"fget": 3, "fwait": 1, "fexp": .7, "ftw": 1.5, "look": 2, "fmove": .5, "fswap": .3, "fshare": .6, "scopy": .6, "fdtor": .5, "sleep": .5, "fgor": .7}


def f01(c):
    o = "pnew pget pset pexc fget fwait ftw fready"
    c.mc(MC, MCC + K(o + " fshare scopy", proms=1, futs=2, mo=3, now=1), "outcome", workers=6)
    c.mc(MC, LIVE + K("pnew pget pset pexc fget fwait ftw", mo=3, now=1), "live", workers=2)
    g = c.gen(MC, GENC + K("pnew pget pset pexc fget fwait ftw fready fshare scopy fdtor fmove fgor fexp", proms=1, futs=2, mo=9, now=1, depth=6 if c.quick else 7), "outcome")
    check(c, "i v r m i2", dict(BASE, pset=4, pexc=2, pget=1, pnew=.7, prom=1, mkr=1, jump=.3, pswap=.3, wall=.3), PROM, gens=[g])
    c.expect("ret:pset=ok", "ret:pset=sat", "ret:pexc=ok", "ret:fget=ok", "ret:fget=exc", "ret:fget=uninit", "ret:ftw=ready", "ret:ftw=timeout", "ret:ftw=true", "ret:ftw=false", "ret:pget=retr", "ret:fgor=ok", "ret:fexp=exc", "ret:fexp=none", "ret:mkr=ok", "ret:scopy=ok")


def f02(c):
    o = "pnew pget pset pmove pdtor fget"
    c.mc(MC, MCC + K(o + " pswap pexc", proms=2, futs=1, mo=3), "broken", workers=6)
    c.mc(MC, LIVE + K(o, proms=2, futs=1, mo=3), "live", workers=2)
    g = c.gen(MC, GENC + K(o + " pswap pexc fwait tnew tget tdtor tmove trun", proms=2, tasks=2, futs=1, mo=9, depth=5 if c.quick else 6), "broken")
    check(c, "i v r m i2", dict(BASE, pdtor=4, pmove=3, pswap=1.5, pget=1, pset=1, pexc=.5, prom=1.5, tdtor=1.5, tmove=1, task=.7, trun=.5, wany=.5, wall=.3, psetx=.5), {"prom": 1, "sprom": .3, "task": .4}, gens=[g], limit=500)
    c.expect("ret:fget=broken", "ret:pmove=ok", "ret:pswap=ok", "ret:pdtor=ok", "ret:tdtor=ok", "ret:pset=moved", "ret:pget=moved", "ret:fexp=broken", "ret:fwait=ok", "ret:tmove=ok")


def f03(c):
    o = "tnew tget trun tmove tdtor fget"
    c.mc(MC, MCC + K(o + " tswap tvalid fwait", tasks=1 if c.quick else 2, futs=1, mo=3), "task", workers=6)
    c.mc(MC, LIVE + K(o, tasks=2, futs=1, mo=3 if not c.quick else 2), "live", workers=2)
    g = c.gen(MC, GENC + K(o + " tswap tvalid fwait fready", tasks=2, futs=2, mo=9, depth=5 if c.quick else 7), "task")
    check(c, "i v r m i2", dict(BASE, trun=5, trunx=1, tmove=1.5, tswap=1, tget=1, tdtor=1, tvalid=1, task=1.5), {"task": 1}, gens=[g], limit=500)
    c.expect("ret:trun=ok", "ret:trun=started", "ret:trun=moved", "ret:tget=retr", "ret:tget=moved", "ret:tvalid=true", "ret:tvalid=false", "ret:fget=ok", "ret:fget=exc", "ret:fget=broken", "ev:fstart", "ret:trunx=ok")


def f04(c):
    o = "anew dnew fget fwait ftw fready fdtor"
    c.mc(MC, MCC + K(o + " fshare", threads=2, futs=2 if not c.quick else 1, mo=3, now=1), "async", workers=6)
    c.mc(MC, LIVE + K(o, futs=1, mo=3 if not c.quick else 2, now=1), "live", workers=2)
    g = c.gen(MC, GENC + K(o + " fshare scopy fst fexp fgor wall", futs=2, mo=9, now=1, depth=5 if c.quick else 6), "async")
    check(c, "i v r x m i2", dict(BASE, fwait=2, ftw=2, asyn=2, anew=2, wall=.5, wany=.5), {"anew": 1, "asyn": .5}, gens=[g], limit=500, share=40, cases=["dwait", "cwait"])
    c.expect("ret:anew=ok", "ret:fget=ok", "ret:fget=exc", "ret:ftw=deferred", "ret:ftw=ready", "ret:ftw=timeout", "ev:fstart", "ev:fend=exc", "ret:fready=false", "ret:fready=true")


def f05(c):
    c.mc(MC, MCC + K("pnew pget pset pdtor then sthen dthen fget", futs=2, mo=3 if not c.quick else 2, inv=True), "cont", workers=6)
    c.mc(MC, MCC + K("pnew pget pset then ithen sthen dthen fallb dnew anew fget fwait", threads=1, futs=3, mo=5 if not c.quick else 4), "cont1", workers=2)
    c.mc(MC, LIVE + K("pnew pget pset sthen dthen then fget", futs=2, mo=3 if not c.quick else 2), "live", workers=2)
    g = c.gen(MC, GENC + K("pnew pget pset pexc pdtor then sthen dthen ithen fallb fget fwait fready ftw", futs=3, mo=9, now=1, depth=5 if c.quick else 6), "cont")
    g2 = c.gen(MC, GENC + K("pnew pget pset unw wset anew mkr fget fready sthen", futs=3, mo=9, depth=4 if c.quick else 5), "unwrap")
    check(c, "i v x m", dict(BASE, then=4, chain=2, fallb=1.5, unw=1.5, wset=2, wrapd=1, pset=2.5, pexc=1, pdtor=.7, prom=1, asyn=.5, anew=.5, mkr=.4, task=.3, trun=.5), {"prom": 2, "asyn": 1, "anew": 1, "task": .3}, gens=[g, g2], limit=400, share=20, cases=["inh", "cwait"])
    c.expect("ret:then=ok", "ret:fallb=ok", "ret:unw=ok", "ret:wset=ok", "ev:fstart=ok", "ev:fstart=exc", "ev:fstart=broken", "ret:fget=ok", "ret:fget=exc", "ret:fget=broken")


def f06(c):
    o = "pnew pget pset wany wall whall whany vwait vget"
    c.mc(MC, MCC + K("pnew pget pset wany wall fwait", proms=2, futs=2, mo=3 if not c.quick else 2), "waits", workers=6)
    c.mc(MC, MCC + K("pnew pget pset whall whany vwait vready vget dnew", proms=2 if not c.quick else 1, futs=2, mo=3 if not c.quick else 2), "when", workers=6)
    c.mc(MC, LIVE + K("pnew pget pset wany whall whany vwait dnew", proms=1, futs=2, mo=2), "live", workers=2)
    g = c.gen(MC, GENC + K(o + " vready fget dnew", proms=1, futs=2, mo=9, depth=5 if c.quick else 6), "when")
    check(c, "i v x m", dict(BASE, wany=4, wall=2, whall=3, whany=3, vwait=2, vready=1.5, vtw=1.5, vget=2, pset=3, pexc=1, prom=1.5, asyn=1, anew=.7, mkr=.5, pdtor=.4), {"prom": 2, "asyn": 1, "anew": 1, "sprom": .5}, gens=[g], limit=500, share=40, cases=["dupany", "abba"])
    c.expect("ret:wany=ok", "ret:wall=ok", "ret:whall=ok", "ret:whany=ok", "ret:vwait=ok", "ret:vready=true", "ret:vready=false", "ret:vtw=ready", "ret:vtw=timeout", "ret:vget=ok", "ret:fget=ok")


def f07(c):
    o = "pnew pget psetx pexcx pset fget fwait pdtor"
    c.mc(MC, MCC + K(o, mo=3, futs=1), "exit", workers=6)
    c.mc(MC, MCC + K("tnew tget trunx trun tdtor fget pnew pget psetd pnot pset", threads=1, mo=5, futs=1), "exit1", workers=2)
    c.mc(MC, LIVE + K("pnew pget psetx fget pdtor", mo=3, futs=1), "live", workers=2)
    g = c.gen(MC, GENC + K(o + " tnew tget trunx psetd pnot fready sthen ftw", futs=2, mo=9, now=1, depth=6 if c.quick else 7), "exit")
    w = dict(BASE, psetx=4, pexcx=2, psetd=1, pexcd=.7, pnot=1.5, trunx=2.5, trun=.5, pset=1, pexc=.5, pdtor=1, tdtor=.7, pmove=.5, prom=.7, task=.7, then=.7, wany=.4)
    check(c, "i v r m i2", w, {"prom": 2, "task": 1.3}, gens=[g], limit=500)
    c.expect("ret:psetx=ok", "ret:pexcx=ok", "ret:psetx=sat", "ret:pset=sat", "ret:trunx=ok", "ret:psetd=ok", "ret:pnot=ok", "ret:fget=ok", "ret:fget=exc", "ret:ftw=timeout", "ret:ftw=ready")
