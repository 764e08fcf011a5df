#!/usr/bin/env python3
"""show.py DRIVER SPEC 'program line' [defs...]: run one program (scripted, or many schedules) and print its traces"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, ctx
c = ctx.Ctx("show", "quick", 1)
drv, spec, prog = sys.argv[1:4]
n = int(os.environ.get("ITERS", "1"))
exe = core.build([core.Variant("x", drv, sys.argv[4:])])["x"]
tr, st = core.run_exe(exe, [prog], c.dir, "r", 1, n, int(os.environ.get("DCAP", "0")), 2, 20, workers=1)
consts = os.environ.get("CONSTS", "CONSTANTS Threads={1,2,3,4}\n")
rej = core.validate(spec, tr, c.dir, "v", consts)[0] if spec != "-" else {}
print(st, "rejected:", len(rej))
shown = 0
for i in (list(rej) or range(len(tr)))[:int(os.environ.get("SHOW", "1"))]:
    t = json.loads(tr[i]); print("mode", t["m"], "seed", t["s"][:80])
    for k, e in enumerate(t["ev"]):
        print("%s %s t%d %s a=%d b=%d r=%s v=%d w=%d" % (">>" if rej.get(i) == k + 1 else "  ", e["e"], e["t"], e["o"], e["a"], e["b"], e["r"], e["v"], e["w"]))
c.close()
