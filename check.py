#!/usr/bin/env python3
"""check.py ID [quick|thorough]     run the check of one property
   check.py --replay FILE           run the schedule of a replay file again"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import core, ctx as C


def replay(f):
    r = json.load(open(f))
    c = C.Ctx("replay", "quick", 1)
    try:
        exe = core.build([core.Variant("x", r["driver"], r["defs"], r["std"])])["x"]
        pid = int(r["program"].split("|")[0])
        tr, _ = core.run_exe(exe, [r["program"]], c.dir, "r", 1, 1, 0, 8, 20, workers=1, only=(pid, r["mode"], r["seed"]))
        rej, _ = core.validate(r["spec"], tr, c.dir, "v", r["consts"], shards=1)
        k = min(rej) if rej else 0
        for i, e in enumerate(json.loads(tr[k])["ev"]):
            print("%s%3d %s" % (">>" if rej.get(k) == i + 1 else "  ", i + 1, json.dumps(e)))
        print("rejected at event %d" % rej[k] if rej else "accepted")
        return 1 if rej else 0
    finally:
        c.close()


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import registry
    c = C.Ctx(prop, tier, seed)
    try:
        registry.CHECKS[prop](c)
        return c.finish()
    except core.Broken as e:
        sys.stderr.write("check error: %s\n" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()
        core.clean_build()


sys.exit(main())
