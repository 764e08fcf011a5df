from common import *

INV = "INVARIANT OneOwner\nINVARIANT RefsLive\nINVARIANT CleanEnd\nINVARIANT Guards\nINVARIANT NoStale\nCHECK_DEADLOCK FALSE\n"
MCC = "INIT Init\nNEXT Next\nPROPERTY Sound\n" + INV
LIVE = "SPECIFICATION FairSpec\nPROPERTY Live\nCHECK_DEADLOCK FALSE\n"
GENC = "INIT Init\nNEXT GNext\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GPrint\nCHECK_DEADLOCK FALSE\n"
TC = "CONSTANTS Threads={1,2,3,4,5,6}\nHandles={0,1,2,3}\nPtrs={0,1,2,3}\nFlags={0,1}\n"
STYLES = [0, 1] + list(range(3, 21)) + [0, 21]


def K(ops, threads=2, handles=1, ptrs=1, flags=1, term=True, mo=2, now=1, depth=0, roots=1):
    s = lambda a, n: "{%s}" % ",".join(str(i) for i in range(a, n))
    return "CONSTANTS Threads=%s\nHandles=%s\nPtrs=%s\nFlags=%s\nRoots=%d\nTerm=%s\nOps={%s}\nMaxOps=%d\nMaxNow=%d\nDepth=%d\n" % (
        s(1, threads + 1), s(0, handles), s(0, ptrs), s(0, flags), roots, str(term).upper(), ",".join('"%s"' % o for o in ops.split()), mo, now, depth)


def style(r):
    return r.choice(STYLES)


def rename(c, noint=False):
    r = c.rng

    def f(y):
        t, o, a, b, k = y
        if o in ("create", "gcreate"):
            return (o, a, b, style(r))
        if o == "dcreate":
            return ("create", a, b, 2)
        if o in ("fcreate", "fgcreate"):
            n = r.choice([1, 1, 2, 3, 4])
            return (o[1:], a, b, (0 if o == "fgcreate" else r.choice([s for s in STYLES if s != 2])) + 100 * k + 1000 * n)
        if o == "tj":
            return (o, a, b, r.randrange(8))
        if o in ("sleep", "nsleep"):
            return (o, r.randrange(8), b, 0)
        if o == "wait":
            return (o, a, b, r.randrange(8) + r.choice([0, 10]))
        if o == "uwait":
            return ("wait", a, 0, 8 + r.choice([0, 10]))
        if o == "scope":
            return (o, a, b + 3 * r.choice([0, 1, 2, 3]), 0)
        if o == "swap":
            return (o, a, b, r.choice([0, 1]))
        return (o, a, b, 0)
    return f


def scripts(c, g, cfg, nth, limit, pid0=10000, drop=()):
    hs = [x for x in g.result() if not any(y[1] in drop for y in x)]
    if len(hs) > limit:
        hs = c.rng.sample(hs, limit)
    return [hist_to_prog(pid0 + i, cfg, x, nth, rename(c)) for i, x in enumerate(hs)]


def rand(c, pid, cfg, roots, kids, wroot, wkid, lo=2, hi=5, create=None, detached=0.1):
    """random program: each child is created by a root or by another child, at a random place"""
    r = c.rng
    n = roots + kids
    r.nh = r.choice([1, 2, 2, 3, 4])
    th = []
    for t in range(1, n + 1):
        w = wroot if t <= roots else wkid
        l = []
        for _ in range(r.randint(lo, hi) if t <= roots else r.randint(0, hi - 1)):
            x = r.uniform(0, sum(a for a, _ in w))
            for a, o in w:
                x -= a
                if x <= 0:
                    break
            o = o(r) if callable(o) else o
            l += o if isinstance(o, list) else [o]
        th.append(l)
    for k in range(roots + 1, n + 1):
        by = r.choice([1, 1, 1] + list(range(1, k)))
        cr = create(r, k) if create else ("create", H(r), k, 2 if r.random() < detached else style(r))
        # mostly early
        i = r.choice([0, 0, 0, r.randint(0, len(th[by - 1]))])
        th[by - 1].insert(i, cr)
    return prog_line(pid, dict(cfg, roots=roots), th)


H = lambda r: r.randrange(getattr(r, 'nh', 4))
F8 = lambda r: r.randrange(8)
WT = lambda r: r.choice([8, 18, 8, r.randrange(8), 10 + r.randrange(8)])
TJ = lambda r: ("tj", H(r), dur(r), F8(r))
JOIN = lambda r: ("join", H(r), 0, 0)
SLEEP = lambda r: ("sleep", F8(r), dur(r), 0)
NSLEEP = lambda r: ("nsleep", F8(r), dur(r), 0)
WAIT = lambda r: ("wait", r.choice([0, 0, 1]), dur(r), WT(r))
NOTE = lambda r: ("note", r.choice([0, 0, 1]), 0, 0)
CLEAR = lambda r: ("clear", r.choice([0, 0, 1]), 0, 0)
INTR = lambda r: ("interrupt", H(r), 0, 0)
JUMP = lambda r: ("jump", 0, r.choice([-2000, -50, 50, 150, 2000, 40000]), 0)
ONE = lambda o: (lambda r: (o, H(r), 0, 0))
Z = lambda o: (o, 0, 0, 0)
GUARD = lambda r: r.choice([[Z("dis"), Z("ip"), Z("pop"), Z("ip")], [Z("dis"), Z("res"), Z("ip"), Z("pop"), Z("pop")], [Z("dis"), WAIT(r), Z("pop")], [Z("dis"), Z("dis"), Z("res"), WAIT(r), Z("pop"), Z("ie"), Z("pop"), Z("pop"), Z("ie")],
                            [Z("dis"), Z("iq"), Z("ie")], [Z("dis"), SLEEP(r), Z("pop"), Z("iq")], [Z("dis"), Z("res"), WAIT(r), Z("pop"), Z("ie"), Z("pop")]])
SCOPE = lambda r: ("scope", H(r), r.randrange(13), 0)


def variants(c, noint=True, v2=True):
    vs = [Variant("v4", "thr", [V4])]
    if noint:
        vs.append(Variant("noint", "thr", [V4, NOINT]))
    if v2:
        vs.append(Variant("v2", "thr", [V2]))
    if not c.quick:
        vs += [Variant("v3", "thr", [V3]), Variant("v5", "thr", [V5])]
    for v in vs:
        v.term = 0 if v.name == "v2" else 1
    c.build(vs)
    return vs


def go(c, v, progs, iters=90, dcap=60, tag=None):
    c.run(v.name, "ThreadTrace", progs, iters=iters if c.quick else iters * 12, dcap=dcap if c.quick else dcap * 15, dbound=2 if c.quick else 3, tmax=8 if c.quick else 60, consts=TC, tag=tag, maxtraces=3600 if c.quick else 90000)


def go_scripts(c, v, sc):
    if v.name == "noint":
        return
    c.scripted += len(sc)
    c.run(v.name, "ThreadTrace", sc, iters=1, dcap=0, tmax=10, consts=TC, tag=v.name + "-script")


def t01(c):
    ops = "create dcreate join tj detach joinable getid swap move dtor"
    c.mc("ThreadMC", MCC + K(ops, threads=3 if not c.quick else 2, handles=2, mo=2 if not c.quick else 3), "handles", workers=6)
    c.mc("ThreadMC", LIVE + (K("create join tj detach", threads=3, handles=1, mo=2) if c.quick else K("create join tj detach", threads=3, handles=2, mo=2)), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K("create dcreate join tj detach joinable getid swap move dtor", threads=3, handles=2, mo=9, depth=6 if c.quick else 7), "handles")
    g2 = c.gen("ThreadMC", GENC + K("create join detach swap move dtor", threads=3, handles=2, mo=9, depth=6, term=False), "handles2")
    wr = [(4, JOIN), (4, TJ), (1.5, ONE("detach")), (1, ONE("joinable")), (1, ONE("native")), (1.5, ONE("getid")), (1, Z("self")), (1.5, lambda r: ("swap", H(r), H(r), r.choice([0, 1]))), (1.5, lambda r: ("move", H(r), H(r), 0)), (.7, ONE("dtor")), (.7, SLEEP), (.5, NOTE), (.4, JUMP)]
    wk = [(2, Z("self")), (2, SLEEP), (1, JOIN), (1, TJ), (1, WAIT), (1, ONE("getid")), (.7, ONE("detach"))]
    for v in variants(c):
        progs = [rand(c, i, {"term": v.term}, c.rng.choice([1, 1, 2]), c.rng.choice([1, 2, 3]), wr, wk) for i in range(220 if c.quick else 1000)]
        # several threads wait in a join through one handle when the thread ends (before, joining would race with resetting
        # the handle; preemption at synchronisation only for the same reason)
        r, co = c.rng, []
        for i in range(24 if c.quick else 100):
            jn = lambda: r.choice([("join", 0, 0, 0), ("tj", 0, r.choice([100001, 250300, 30000000]), r.choice([0, 1, 2]))])      # deadlines of other clocks are polled: each poll looks at the handle again
            n = r.choice([2, 2, 3])
            th = [[("create", 0, 2, style(r))] + [("create", 1 + k, 3 + k, style(r)) for k in range(n)] + [("note", 0, 0, 0)] + [("join", 1 + k, 0, 0) for k in range(n)], [("wait", 0, 0, 8)]] + [[jn()] for _ in range(n)]
            co.append(prog_line(5000 + i, {"term": v.term, "roots": 1, "co": 1, "sync": 1}, th, [1, 2] + [x for k in range(n) for x in (1, 3 + k)] + [-1, 1]))
        go(c, v, progs)
        go(c, v, co, tag=v.name + "-co")
        go_scripts(c, v, scripts(c, g if v.term else g2, {"roots": 1, "term": v.term}, 3, 600 if c.quick else 6000))
    c.expect("ret:create=ok", "ret:join=ok", "ret:join=inval", "ret:tj=true", "ret:tj=false", "ret:detach=ok", "ret:swap=ok", "ret:move=ok", "ret:getid=ok", "ev:leak")


def t02(c):
    o1 = "create join interrupt ip iq ie dis res pop uwait"
    c.mc("ThreadMC", MCC + K(o1 + " sleep note", mo=3, term=False, now=0 if c.quick else 1), "interrupt", workers=6)
    c.mc("ThreadMC", LIVE + K("create join tj interrupt ip wait uwait", mo=2), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K("create interrupt ip iq ie dis res pop uwait sleep", mo=9, now=1, depth=7 if c.quick else 8), "int")
    wr = [(5, INTR), (1.5, ONE("ireq")), (2, JOIN), (1.5, TJ), (1, NOTE), (.5, Z("ip")), (.5, Z("ie")), (.5, SLEEP), (.5, CLEAR)]
    wk = [(3, WAIT), (2, SLEEP), (1.5, Z("ip")), (1, Z("iq")), (.6, Z("ie")), (3, GUARD), (1, NSLEEP), (1, JOIN), (.7, TJ), (.5, INTR), (.5, NOTE), (.3, Z("throwint"))]
    for v in variants(c, noint=False):
        progs = [rand(c, i, {"term": v.term}, c.rng.choice([1, 1, 2]), c.rng.choice([1, 2, 3]), wr, wk, 3, 6, detached=.03) for i in range(260 if c.quick else 1200)]
        r = c.rng
        for i in range(60 if c.quick else 300):      # a joining thread is interrupted
            hold = r.choice([("sleep", F8(r), 900, 0), WAIT(r), ("wait", 0, 0, 8), ("nsleep", F8(r), 900, 0)])
            th = [[("create", 1, 3, style(r)), ("create", 0, 2, style(r)), r.choice([SLEEP(r), ("self", 0, 0, 0)]), ("interrupt", 0, 0, 0), r.choice([("note", 0, 0, 0), ("interrupt", 0, 0, 0), SLEEP(r)]), ("join", 0, 0, 0)],
                  r.choice([[], [Z("dis")]]) + [r.choice([("join", 1, 0, 0), ("tj", 1, r.choice([300, 1500, 30000000]), F8(r)), ("scope", 1, r.choice([0, 6, 3]), 0)])] + r.choice([[], [Z("pop"), Z("ip")], [("join", 1, 0, 0)], [Z("iq"), Z("ip")]]),
                  [hold] + r.choice([[], [SLEEP(r)], [Z("ip")]])]
            progs.append(prog_line(5000 + i, {"term": v.term, "roots": 1}, th))
        go(c, v, progs)
        go_scripts(c, v, scripts(c, g, {"roots": 1, "term": v.term}, 3, 700 if c.quick else 7000))
    c.expect("ret:interrupt=ok", "ret:ireq=true", "ret:ireq=false", "ret:ip=int", "ret:ip=ok", "ret:wait=int", "ret:sleep=int", "ret:join=int", "ret:tj=int", "ret:ie=true", "ret:ie=false", "ret:nsleep=ok")


ATX = lambda r: ("atexit", r.randint(1, 40), r.choice([0, 0, 1, 2, 3]), 0)
TSET = lambda r: ("tset", r.randrange(4), r.choice([0, 1, 2, 3, 4, 5, 9]), r.choice([0, 1]))
TGET = lambda r: ("tget", r.randrange(4), 0, 0)
TREL = lambda r: ("trel", r.randrange(4), 0, 0)


def exits(c, wk, mo, quickops):
    c.mc("ThreadMC", MCC + K(quickops, ptrs=2 if c.quick else 3, mo=mo, now=0), "exit", workers=6)
    c.mc("ThreadMC", LIVE + K("create atexit tset join", ptrs=1, mo=3, now=0), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K(quickops, ptrs=2, mo=9, now=0, depth=6 if c.quick else 7), "exit")
    wr = [(3, JOIN), (1, TJ), (1, ONE("detach")), (2, TGET), (2, TSET), (1, TREL), (1, INTR), (1, SLEEP), (.3, ATX)]
    for v in variants(c):
        progs = [rand(c, i, {"term": v.term}, c.rng.choice([1, 1, 2]), c.rng.choice([1, 2, 3]), wr, wk, 2, 6, detached=.2) for i in range(220 if c.quick else 1000)]
        go(c, v, progs)
        go_scripts(c, v, scripts(c, g, {"roots": 1, "term": v.term}, 2, 500 if c.quick else 5000))


def t03(c):
    exits(c, [(5, ATX), (2, TSET), (1, SLEEP), (.5, Z("throwint")), (.5, Z("ip")), (.5, JOIN)], 3, "create dcreate atexit tset join detach")
    c.expect("ret:atexit=ok", "ev:cb", "ev:clean", "ret:join=ok", "ev:end", "ev:leak")


def t04(c):
    exits(c, [(5, TSET), (3, TGET), (2, TREL), (1, ATX), (.7, SLEEP), (.3, Z("throwint"))], 3, "create dcreate tset tget trel join")
    c.expect("ret:tset=ok", "ret:tget=ok", "ret:trel=ok", "ev:clean", "ret:join=ok", "ev:leak")


def t05(c):
    ops = "create gcreate gadd grem gjoin gint gsize gin scope"
    c.mc("ThreadMC", MCC + K(ops, threads=3, mo=2, now=0), "group", workers=6)
    c.mc("ThreadMC", LIVE + (K("create gcreate gjoin gint", threads=3, mo=2, now=0) if c.quick else K("create gcreate gadd gjoin gint scope", threads=3, mo=2, now=0)), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K(ops + " gtin ip", threads=3, mo=9, now=0, depth=6 if c.quick else 7), "group")
    gk = lambda o: (lambda r: (o, H(r), r.randint(2, 6), 0))
    wr = [(3, ONE("gadd")), (2, gk("grem")), (3, Z("gjoin")), (1.5, Z("gint")), (1, Z("gsize")), (1, Z("gin")), (1, gk("gtin")), (4, SCOPE), (1, JOIN), (.5, INTR), (.5, NOTE)]
    wk = [(2, Z("gsize")), (2, Z("gin")), (1, Z("ip")), (1, SLEEP), (1, WAIT), (.7, SCOPE), (.5, Z("gint")), (.5, NOTE), (.3, Z("gjoin"))]
    cr = lambda r, k: r.choice([("create", H(r), k, style(r)), ("gcreate", 0, k, 0)])
    for v in variants(c):
        progs = [rand(c, i, {"term": v.term}, c.rng.choice([1, 1, 2]), c.rng.choice([1, 2, 3]), wr, wk, 3, 6, create=cr) for i in range(260 if c.quick else 1200)]
        go(c, v, progs)
        go_scripts(c, v, scripts(c, g, {"roots": 1, "term": v.term}, 3, 500 if c.quick else 5000))
    c.expect("ret:gcreate=ok", "ret:gadd=ok", "ret:grem=ok", "ret:gjoin=ok", "ret:gint=ok", "ret:gin=true", "ret:gin=false", "ret:gtin=true", "ret:scope=ok")


def t06(c):
    ops = "create dcreate fcreate gcreate fgcreate join gjoin gsize"
    c.mc("ThreadMC", MCC + K(ops, threads=2 if c.quick else 3, mo=3, now=0), "faults", workers=6)
    c.mc("ThreadMC", LIVE + K("create fcreate join", threads=2, mo=4, now=0), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K(ops, threads=3, mo=9, now=0, depth=5 if c.quick else 6), "faults")
    wr = [(3, JOIN), (1, TJ), (1, Z("gjoin")), (1, ONE("joinable")), (1, ONE("detach")), (1, Z("gsize")), (.5, INTR)]
    wk = [(2, Z("self")), (1, SLEEP), (1, TSET), (1, ATX)]

    def cr(r, k):
        f = r.choice([0, 1, 1, 2, 2, 2, 3, 3]); n = r.randint(1, 6)
        if r.random() < .25:
            return ("gcreate", 0, k, (100 * f + 1000 * n) if f else 0)
        s = r.choice([0, 1, 2, 3, 4, 5, 12, 13, 14, 15, 16, 17, 18, 19, 20])
        return ("create", H(r), k, s + (100 * f + 1000 * n if f else 0))
    for v in variants(c):
        progs = [rand(c, i, {"term": v.term}, 1, c.rng.choice([1, 2, 3]), wr, wk, 2, 5, create=cr) for i in range(260 if c.quick else 1200)]
        go(c, v, progs, 40, 20)
        go_scripts(c, v, scripts(c, g, {"roots": 1, "term": v.term}, 3, 500 if c.quick else 5000))
    c.expect("ret:create=ok", "ret:create=fail", "ret:create=nomem", "ret:gcreate=ok", "ret:gcreate=fail", "ret:gcreate=nomem", "ev:leak", "ret:join=ok")


def n01(c):
    ops = "create sleep nsleep tj interrupt ip dis pop"
    c.mc("ThreadMC", MCC + K(ops, mo=3 if not c.quick else 2, now=2), "sleep", workers=6)
    c.mc("ThreadMC", LIVE + K("create sleep nsleep interrupt", mo=2, now=2), "live", workers=2)
    g = c.gen("ThreadMC", GENC + K("create sleep nsleep interrupt ip", mo=9, now=3, depth=6 if c.quick else 8), "sleep")
    wr = [(4, SLEEP), (4, NSLEEP), (1, TJ), (1, INTR), (1.5, JUMP)]
    wk = [(4, SLEEP), (3, NSLEEP), (1, WAIT), (1, JUMP), (1, Z("ip")), (.5, GUARD)]
    for v in variants(c):
        progs = [rand(c, i, {"term": v.term, "sig": [0, 1, 0, 3, 0][i % 5]}, c.rng.choice([1, 2]), c.rng.choice([1, 2]), wr, wk, 2, 5) for i in range(260 if c.quick else 1200)]
        go(c, v, progs, 60, 30)
        go_scripts(c, v, scripts(c, g, {"roots": 1, "term": v.term, "sig": 1}, 3, 500 if c.quick else 5000))
    c.expect("ret:sleep=ok", "ret:sleep=int", "ret:nsleep=ok", "ev:jump", "ret:tj=false")
