from common import *

INV = "INIT Init\nNEXT Next\nVIEW GView\nINVARIANT Accounted\nINVARIANT NonNeg\nINVARIANT OwnNeedsMutex\nCHECK_DEADLOCK FALSE\n"
HOWS = {0: [0, 0, 7, 1, 8, 2, 9, 3, 4, 5, 6, 10], 1: [0, 1, 2, 3, 4, 5, 6], 2: [0, 1, 2, 3, 4, 5]}
CONVS = [(i, j, c) for i in range(6) for j in range(6) for c in range(4)
         if (c == 0 and (i // 2, j // 2) in ((0, 2), (1, 0), (1, 2), (2, 0))) or (c and (i // 2, j // 2) in ((0, 1), (0, 2), (2, 1)))]


def k(depth, us, mm, tr="try", envs=(0, 1, 2), maxh=2):
    return "CONSTANTS Depth=%d MaxH=%d US={%s} MM={%s} Tries=\"%s\" Envs={%s}\n" % (depth, maxh, ",".join(map(str, us)), ",".join(map(str, mm)), tr, ",".join(map(str, envs)))


def rnd_prog(c, i, ln):
    r = c.rng
    ops = [("new", q, r.choice([1, 2]), 1) for q in range(6) if r.random() < .5]
    cur = r.sample(range(6), r.choice([2, 3, 6]))
    while len(ops) < ln:
        x = r.random(); s = r.choice(cur); m = r.choice([1, 1, 2])
        if x < .18: ops.append(("new", s, m, r.choice(HOWS[s // 2])))
        elif x < .42: ops.append((r.choice(["lock", "try", "for", "until", "unlock", "unlock", "tabs", "trel", "xt"]), s, 0, 0))
        elif x < .50: ops.append((r.choice(["release", "del"]), s, 0, 0))
        elif x < .58: ops.append((r.choice(["swap", "fswap", "mova", "movc"]), s, s ^ 1, 0))
        elif x < .74:
            cv = [q for q in CONVS if q[0] in cur and q[1] in cur]
            if cv:
                q = r.choice(cv); ops.append(("conv",) + q)
        elif x < .82: ops.append((r.choice(["up", "nested", "rev"]), s, r.randrange(3), 0))
        elif x < .88: ops.append(("scoped", m, r.randrange(16), 0))
        elif x < .93: ops.append((r.choice(["raw", "rawu"]), m, s // 2, 0))
        else: ops.append(("env", m, r.choice([0, 0, 1, 2]), 0))
    return prog_line(i, {}, [ops])


def systematic():
    """every operation from every state of the objects it involves"""
    out = []
    for e in (0, 1, 2):
        for s in range(6):
            for st in ([], [("new", s, 1, 1)], [("new", s, 1, 0)]):
                ty = s // 2
                for o in ["lock", "try", "for", "until", "unlock", "release", "del", "tabs", "trel", "xt", "up", "nested", "rev"]:
                    for b in (0, 1, 2) if o == "up" else (0,):
                        out.append(st + [("env", 1, e), (o, s, b, 0), ("env", 1, 0), ("del", s, 0, 0)])
                for h in HOWS[ty]:
                    out.append(st + [("raw", 2, ty, 0), ("env", 2, e), ("new", s, 2, h), ("env", 2, 0), ("unlock", s, 0, 0)])
                for o in ["swap", "fswap", "mova", "movc"]:
                    for st2 in ([], [("new", s ^ 1, 2, 1)], [("new", s ^ 1, 2, 0)]):
                        out.append(st + st2 + [(o, s, s ^ 1, 0), ("del", s, 0, 0), ("del", s ^ 1, 0, 0)])
                for q in CONVS:
                    if q[1] == s:
                        for st2 in ([], [("new", q[0], 2, 1)], [("new", q[0], 2, 0)]):
                            out.append(st + st2 + [("env", 1, e), ("conv",) + q, ("env", 1, 0), ("del", q[0], 0, 0), ("del", q[1], 0, 0)])
        for hw in range(16):
            out.append([("raw", 1, 0, 0), ("raw", 1, 1, 0), ("env", 1, e), ("env", 2, e), ("scoped", 1, hw, 0), ("env", 1, 0), ("env", 2, 0)])
    return out


def l01(c):
    gens = []
    pairs = [(0, 2), (0, 4), (2, 4), (0, 1), (2, 3), (4, 5)]
    for n, us in enumerate(pairs):
        gens.append(c.gen("LockObjMC", INV + "CONSTRAINT GBound\nACTION_CONSTRAINT GPrint\n" + k(5 if c.quick else 7, us, (1,), ["try", "for", "until"][n % 3], (0, 1, 2)), "pair%d%d" % us, limit=4000 if c.quick else 30000))
    if c.quick:
        c.mc("LockObjMC", INV + "CONSTRAINT GBound\n" + k(9, (0, 2, 4), (1,), envs=(0, 1)), "three")
    else:
        c.mc("LockObjMC", INV + "CONSTRAINT GBound\n" + k(8, (0, 1, 2, 4), (1, 2), envs=(0, 1)), "four", workers=6)
    vs = [Variant("v4", "locks", [V4])]
    if not c.quick:
        vs += [Variant("v5", "locks", [V5]), Variant("v3", "locks", [V3])]
    c.build(vs)
    for v in vs:
        progs = [rnd_prog(c, i, c.rng.choice([6, 12, 24])) for i in range(3000 if c.quick else 30000)]
        progs += [prog_line(50000 + i, {}, [x]) for i, x in enumerate(systematic())]
        c.run(v.name, "LockObjTrace", progs, iters=1, dcap=0, tmax=20, tag=v.name)
        sc, pid = [], 100000
        for g in gens:
            for h in g.result():
                sc.append(hist_to_prog(pid, {}, h, 1)); pid += 1
        c.scripted += len(sc)
        sc = [p.rsplit("|", 1)[0] + "|" for p in sc]      # one thread: the order is the program's
        c.run(v.name, "LockObjTrace", sc, iters=1, dcap=0, tmax=20, tag=v.name + "-script")
    c.expect("ret:new=ok", "ret:new=thrown", "ret:lock=deadlock", "ret:unlock=perm", "ret:try=false", "ret:conv=ok", "ret:conv=thrown", "ret:rev=ok", "ret:nested=ok", "ret:nested=thrown", "ret:up=ok", "ret:scoped=ok", "ret:scoped=thrown", "ret:release=m1")
