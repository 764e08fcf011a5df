"""One run of one check."""
import json, os, random, re, shutil, sys, time, tempfile, threading, concurrent.futures as cf
import core
from core import Broken, Variant


class Rejected:
    def __init__(self, ctx, spec, consts, variant, prog, trace, pos):
        self.spec, self.consts, self.variant, self.prog, self.trace, self.pos = spec, consts, variant, prog, trace, pos

    def signature(self):
        e = self.trace["ev"][self.pos - 1] if 0 < self.pos <= len(self.trace["ev"]) else {}
        return "%s %s | %s | %s %s r=%s" % (self.spec, self.variant, self.prog.split("|", 1)[1], e.get("e"), e.get("o"), e.get("r"))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.rng = random.Random(seed * 7919 + sum(map(ord, prop)))
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.pool = cf.ThreadPoolExecutor(4)
        self.jobs = []
        self.states = self.trans = self.tstates = 0
        self.traces = self.runs = self.progs = self.dfs_complete = self.scripted = 0
        self.cover, self.samples, self.rejected, self.notes = {}, [], [], []
        self.unconfirmed = 0
        self.exes, self.variants = {}, {}
        self.mutants = self.mutants_rej = 0
        self.expected = set()
        self.ok_traces = {}
        self.lock = threading.Lock()
        self.skipped = 0

    # -- specification side
    def mc(self, module, cfg, tag=None, workers=4, timeout=800, xmx="6g"):
        tag = tag or module

        def go():
            g, d = core.model_check(module, cfg, self.dir, "mc-" + tag, workers=workers, timeout=timeout, xmx=xmx)
            with self.lock:
                self.trans += g; self.states += d; self.notes.append("%s: %d states, %d transitions (at %.0fs)" % (tag, d, g, time.time() - self.t0))
        self.jobs.append(self.pool.submit(go))

    def gen(self, module, cfg, tag=None, limit=None):
        """histories covering the specification's transitions (a future)"""
        def go():
            h, g, d = core.generate(module, cfg, self.dir, "gen-" + (tag or module))
            # histories that are a prefix of another one add nothing
            pref = set()
            for x in h:
                for i in range(1, len(x)):
                    pref.add(json.dumps(x[:i]))
            h = [x for x in h if json.dumps(x) not in pref]
            with self.lock:
                self.trans += g; self.states += d; self.notes.append("%s: %d generated histories (at %.0fs)" % (tag or module, len(h), time.time() - self.t0))
            if limit and len(h) > limit:
                r = random.Random(self.seed); h = r.sample(h, limit)
            return h
        return self.pool.submit(go)

    # -- implementation side
    def build(self, variants):
        t = time.time()
        for v in variants:
            self.variants[v.name] = v
        self.exes.update(core.build(variants))
        self.notes.append("build %.1fs" % (time.time() - t))

    def run(self, variant, spec, progs, iters=200, dcap=100, dbound=2, tmax=10, consts="", tag=None, maxtraces=None, race=None):
        """execute programs under many schedules and validate every distinct trace.  Scripted programs are run
        as they are, and again with neighbouring steps racing with each other (race = number of programs, schedules of each)"""
        if not progs:
            return
        if race is None and progs[0].count("|") >= 3:
            race = (350, 12) if self.quick else (3000, 60)
        if race and race[0]:
            rp = [self.racy(x) for x in (progs if len(progs) <= race[0] else self.rng.sample(progs, race[0]))]
            self.run(variant, spec, [x for x in rp if x], race[1], 0 if self.quick else 40, 2, tmax, consts, (tag or variant) + "-race", maxtraces or (6000 if self.quick else 60000), (0, 0))
        tag = tag or "%s-%d" % (variant, len(self.ok_traces))
        exe = self.exes[variant]
        t0 = time.time()
        traces, st = core.run_exe(exe, progs, self.dir, "r-" + tag, self.seed, iters, dcap, dbound, tmax)
        self.runs += st["runs"]; self.progs += st["programs"]; self.dfs_complete += st["dfs_complete"]; self.skipped += st["skipped_programs"]
        if maxtraces and len(traces) > maxtraces:
            # keep every trace with a fault, a sample of the others
            f = [x for x in traces if '"fault"' in x]; o = [x for x in traces if '"fault"' not in x]
            traces = f[:maxtraces] + random.Random(self.seed).sample(o, max(0, min(len(o), maxtraces - len(f))))
        t1 = time.time()
        rej, (g, d) = core.validate(spec, traces, self.dir, "v-" + tag, consts)
        self.notes.append("%s: %d programs %.1fs, %d traces %.1fs" % (tag, len(progs), t1 - t0, len(traces), time.time() - t1))
        self.tstates += d
        self.traces += len(traces)
        byid = {int(p.split("|", 1)[0]): p for p in progs}
        ok = []
        for i, ln in enumerate(traces):
            if i in rej:
                continue
            if len(ok) < 400 or i % 37 == 0:
                ok.append(ln)
        for ln in ok:
            for e in json.loads(ln)["ev"]:
                if e["e"] in ("ret", "ev"):
                    k = "%s:%s=%s" % (e["e"], e["o"], e["r"]) if e["r"] else "%s:%s" % (e["e"], e["o"])
                    self.cover[k] = self.cover.get(k, 0) + 1
        self.ok_traces[tag] = (spec, consts, ok)
        if ok and len(self.samples) < 6:
            t = json.loads(ok[len(ok) // 2])
            self.samples.append({"program": byid[t["p"]], "mode": t["m"], "seed": t["s"][:60],
                                 "events": ["%s t%d %s(%d,%d)%s%s @%d" % (e["e"], e["t"], e["o"], e["a"], e["b"], "=" + e["r"] if e["r"] else "", (" v%d" % e["v"]) if e["v"] else "", e["w"]) for e in t["ev"][:14]]})
        n = 0
        for i in sorted(rej):
            t = json.loads(traces[i])
            if n >= 6:
                break
            n += 1
            # a rejection counts only if running the same schedule again gives a rejected trace again
            again, _ = core.run_exe(exe, [byid[t["p"]]], self.dir, "c-" + tag, self.seed, 1, 0, 8, 20, workers=1, only=(t["p"], t["m"], t["s"]))
            r2, _ = core.validate(spec, again, self.dir, "cv-" + tag, consts, shards=1) if again else ({}, None)
            if r2:
                k = min(r2)
                self.rejected.append(Rejected(self, spec, consts, variant, byid[t["p"]], json.loads(again[k]), r2[k]))
            else:
                self.unconfirmed += 1
                sys.stderr.write("unconfirmed rejection: %s pos %d: %s\n" % (tag, rej[i], traces[i][:1500]))
        self.nrej = getattr(self, "nrej", 0) + len(rej)
        return st

    def racy(self, line):
        f = line.split("|")
        o = [int(x) for x in f[3].split()]
        c = [i for i in range(len(o) - 1) if o[i] > 0 and o[i + 1] > 0]
        if not c:
            return None
        ks = {c[-1] if self.rng.random() < .4 else self.rng.choice(c)}
        if self.rng.random() < .3:
            ks.add(self.rng.choice(c))
        f[3] = " ".join(str(-x if i in ks else x) for i, x in enumerate(o))
        return "|".join(f)

    def expect(self, *keys):
        self.expected.update(keys)

    def self_test(self):
        """corrupt one recorded result per trace: the binding must notice (most of) it"""
        r = random.Random(self.seed)
        for tag, (spec, consts, ok) in self.ok_traces.items():
            cand = [x for x in ok if '"e":"ret"' in x]
            if not cand:
                continue
            res = []
            for ln in r.sample(cand, min(len(cand), 40 if self.quick else 200)):
                t = json.loads(ln)
                rets = [i for i, e in enumerate(t["ev"]) if e["e"] == "ret"]
                e = t["ev"][r.choice(rets)]
                if e["r"] in ("true", "false"):
                    e["r"] = "false" if e["r"] == "true" else "true"
                else:
                    e["r"] = e["r"] + "_"
                res.append(json.dumps(t, separators=(",", ":")) + "\n")
            rej, _ = core.validate(spec, res, self.dir, "m-" + tag, consts, shards=1)
            self.mutants += len(res); self.mutants_rej += len(rej)
            break   # one group is enough per run
        if self.mutants and not self.mutants_rej:
            raise Broken("self test: no corrupted trace was rejected")

    def finish(self):
        for j in self.jobs:
            j.result()
        if not self.rejected:
            self.self_test()
        known = []
        kf = os.path.join(core.VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get("property") == self.prop and k.get("status") == "known"]
        viol, seen = [], set()
        for x in self.rejected:
            sig = x.signature()
            hit = [k for k in known if re.search(k["match"], sig)]
            if hit:
                seen.add(hit[0]["what"])
            else:
                viol.append(x)
        # findings are reported also when this run's schedules did not meet them
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        missing = sorted(self.expected - set(self.cover))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "samples": self.samples, "trace_states": self.tstates, "implementation_runs": self.runs, "programs": self.progs,
                           "programs_not_run_for_lack_of_time": self.skipped, "spec_generated_scripts": self.scripted,
                           "schedules_exhausted_programs": self.dfs_complete, "event_coverage": self.cover, "expected_but_not_seen": missing,
                           "corrupted_traces": self.mutants, "corrupted_traces_rejected": self.mutants_rej,
                           "rejections_not_reproduced": self.unconfirmed, "notes": self.notes},
              "assumptions": ["sequentially consistent interleavings of instrumented accesses; weak-memory reorderings are covered only through happens-before checked payload accesses",
                              "virtual time and replaced pthread layer (rt/vs.cpp) behave as POSIX allows"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(core.VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if missing:
            sys.stderr.write("not covered in this run: %s\n" % ", ".join(missing))
        if viol:
            rd = os.path.join(core.VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for k, x in enumerate(viol[:3]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, k))
                v = self.variants[x.variant]
                json.dump({"property": self.prop, "variant": x.variant, "driver": v.driver, "defs": v.defs, "std": v.std, "spec": x.spec, "consts": x.consts,
                           "program": x.prog, "mode": x.trace["m"], "seed": x.trace["s"], "unexplained_event": x.pos,
                           "event": x.trace["ev"][x.pos - 1] if x.pos <= len(x.trace["ev"]) else None, "trace": x.trace["ev"]}, open(p, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                sys.stdout.write("  %s\n" % x.signature()[:400])
            return 1
        return 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)
