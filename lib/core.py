"""Build, run, validate: the machinery shared by all checks (see DESIGN.md)."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf, glob, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 8)
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
BASE = ["-O1", "-g0", "-w", "-std=c++11", "-DBOOST_THREAD_NO_LIB=1", "-DBOOST_THREAD_POSIX", "-DBOOST_THREAD_BUILD_DLL=1",
        "-DBOOST_THREAD_USE_DLL=1", "-DBOOST_ALL_NO_LIB", "-DBOOST_THREAD_USES_DATETIME", "-I%s/include" % REPO, "-I/opt/vp/lib/shadow", "-I%s/rt" % VERIF, "-I%s/rt/shim" % VERIF]
PRE = ["-DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED"]


class Broken(Exception):
    """the machinery itself failed: exit 2, never a VIOLATION"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


_treehash = {}


def tree_hash(paths):
    k = tuple(paths)
    if k in _treehash:
        return _treehash[k]
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(glob.glob(p + "/**", recursive=True))
        for f in fs:
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    _treehash[k] = h.hexdigest()
    return _treehash[k]


def compile_one(cmd, out):
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-3000:])
    os.replace(tmp, out)
    return None


class Variant:
    """a driver compiled together with the library in one configuration"""
    def __init__(self, name, driver, defs=(), std=None, cfg=None):
        self.name, self.driver, self.defs, self.std, self.cfg = name, driver, list(defs), std, cfg or {}

    def flags(self):
        b = [("-std=" + self.std) if (self.std and x.startswith("-std=")) else x for x in BASE]
        d = list(self.defs)
        pre = [] if "-DNO_PRE" in d else PRE
        return b + pre + d


def build(variants):
    """compile all variants, from /repo's working tree, in parallel; returns {name: exe}"""
    os.makedirs(BUILD, exist_ok=True)
    src = tree_hash([REPO + "/include", REPO + "/src"])
    rt = tree_hash([VERIF + "/rt/vs.cpp", VERIF + "/rt/vs.h"])
    jobs, exes = {}, {}
    vso = os.path.join(BUILD, "vs-%s.o" % hashlib.sha256(rt.encode()).hexdigest()[:16])
    jobs[vso] = ["g++", "-O2", "-w", "-c", VERIF + "/rt/vs.cpp", "-I" + VERIF + "/rt"]
    # a generated static-atomics fallback is not needed: the library is compiled with the driver's flags
    links = []
    utilh = tree_hash([VERIF + "/drv/util.h"])
    for v in variants:
        drv = os.path.join(VERIF, "drv", v.driver + ".cpp")
        libfl = [f for f in v.flags() if not f.startswith("-DDRV_")]
        lk = hashlib.sha256((src + rt + " ".join(libfl)).encode()).hexdigest()[:20]
        dk = hashlib.sha256((src + rt + utilh + " ".join(v.flags()) + open(drv).read()).encode()).hexdigest()[:20]
        objs = []
        for s in ("pthread/thread", "pthread/once", "future"):
            o = os.path.join(BUILD, "%s-%s.o" % (s.replace("/", "_"), lk)); objs.append(o)
            jobs[o] = ["g++"] + TSAN + libfl + ["-c", "%s/src/%s.cpp" % (REPO, s)]
        o = os.path.join(BUILD, "%s-%s.o" % (v.driver, dk)); objs.append(o)
        jobs[o] = ["g++"] + TSAN + v.flags() + ["-c", drv]
        exe = os.path.join(BUILD, "%s-%s-%s.exe" % (v.driver, lk[:8], dk))
        exes[v.name] = exe
        links.append((exe, ["g++"] + objs + [vso, "-lboost_chrono", "-lboost_atomic", "-lboost_date_time", "-pthread"]))
    # drivers first: they take longest
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    todo.sort(key=lambda oc: 0 if "/drv/" in oc[1][-1] or "vs.cpp" in " ".join(oc[1]) else 1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda oc: compile_one(oc[1], oc[0]), todo) if e]
        if errs:
            raise Broken("compilation failed:\n" + errs[0])
        errs = [e for e in ex.map(lambda l: None if os.path.exists(l[0]) else compile_one(l[1], l[0]), links) if e]
        if errs:
            raise Broken("link failed:\n" + errs[0])
    return exes


def clean_build(max_mb=1500):
    try:
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + "/*")]
        tot = sum(s for _, s, _ in fs)
        for m, s, f in sorted(fs):
            if tot < max_mb << 20:
                break
            os.unlink(f); tot -= s
    except OSError:
        pass


# ---- programs -------------------------------------------------------------------------------------
def prog_line(pid, cfg, threads, order=None):
    c = ",".join("%s=%d" % kv for kv in sorted(cfg.items()))
    t = ";".join(",".join(" ".join(str(x) for x in op) for op in th) for th in threads)
    return "%d|%s|%s|%s" % (pid, c, t, " ".join(map(str, order or [])))


def run_exe(exe, progs, outdir, tag, seed, iters, dcap, dbound, tmax, workers=None, only=None, env=None):
    """run a driver over programs on several workers; returns (traces, stats)"""
    workers = workers or min(NCPU, max(1, len(progs)))
    pf = os.path.join(outdir, tag + ".progs")
    open(pf, "w").write("\n".join(progs) + "\n")
    ps = []
    for w in range(workers):
        of = os.path.join(outdir, "%s.%d.out" % (tag, w))
        cmd = [exe, pf, of, str(seed), str(iters), str(dcap), str(dbound), str(tmax), str(w), str(workers)]
        if only:
            cmd += ["-only", str(only[0]), str(only[1]), str(only[2])]
        ps.append((of, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    traces, st = [], {}
    for of, p in ps:
        try:
            o, e = p.communicate(timeout=tmax + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Broken("driver did not finish: " + exe)
        if p.returncode != 0:
            raise Broken("driver %s failed (%d): %s" % (exe, p.returncode, e[-500:]))
        for k, x in json.loads(o).items():
            st[k] = st.get(k, 0) + x if k != "wall" else max(st.get(k, 0), x)
        with open(of, errors="replace") as f:
            for ln in f:
                if ln.endswith("}\n"):
                    traces.append(ln)
        os.unlink(of)
    return traces, st


# ---- TLC ------------------------------------------------------------------------------------------
def tlc(module, cfgtext, outdir, tag, env=None, workers=1, xmx="2g", timeout=600, extra=()):
    d = os.path.join(outdir, "tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, tag + ".cfg")
    open(cfgp, "w").write(cfgtext)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx] + (["-Xms160m", "-Xmn100m", "-XX:TieredStopAtLevel=1", "-XX:MaxDirectMemorySize=64m"] if workers == 1 else []) + ["-Xss16m",
           "-cp", JAR + ":" + ":".join(glob.glob("/opt/veriftools/tla/*.jar")), "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s (%s)" % (module, tag))
    finally:
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, r.stdout, gen, dis


TRACE_CFG = "INIT TInit\nNEXT TNext\nCONSTRAINT Record\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"


def validate(spec, lines, outdir, tag, consts="", shards=None, timeout=800):
    """check traces against the trace specification; returns ({index: position of the first unexplained event}, stats)"""
    if not lines:
        return {}, (0, 0)
    total = sum(len(x) for x in lines)
    shards = shards or max(1, min(NCPU, len(lines) // 60 + 1, total // 150000 + 1))
    idx = [list(range(k, len(lines), shards)) for k in range(shards)]

    def one(k):
        f = os.path.join(outdir, "%s.%d.ndjson" % (tag, k))
        with open(f, "w") as o:
            o.writelines(lines[i] for i in idx[k])
        rc, out, gen, dis = tlc(spec, TRACE_CFG + consts, outdir, "%s.%d" % (tag, k), env={"TRACES": f}, timeout=timeout, xmx="3g")
        os.unlink(f)
        if rc != 0 or "VALIDATED" not in out:
            raise Broken("trace validation with %s failed (%d):\n%s" % (spec, rc, out[-3000:]))
        n = int(re.search(r'"VALIDATED", (\d+)', out).group(1))
        if n != len(idx[k]):
            raise Broken("trace count mismatch in " + spec)
        return {idx[k][int(a) - 1]: int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)}, gen, dis
    rej, g, d = {}, 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, a, b in ex.map(one, range(shards)):
            rej.update(r); g += a; d += b
    return rej, (g, d)


def model_check(spec, cfgtext, outdir, tag, workers=4, timeout=600, xmx="8g"):
    """exhaustive check of the specification itself; a failure means that the model is wrong"""
    rc, out, gen, dis = tlc(spec, cfgtext, outdir, tag, workers=workers, timeout=timeout, xmx=xmx)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise Broken("model checking of %s failed:\n%s" % (spec, out[-3500:]))
    return gen, dis


def generate(spec, cfgtext, outdir, tag, timeout=300, xmx="4g"):
    """transition cover of the specification's state graph: list of histories [[t, op, a, b], ...]"""
    rc, out, gen, dis = tlc(spec, cfgtext, outdir, tag, workers=1, timeout=timeout, xmx=xmx)
    if rc != 0:
        raise Broken("behaviour generation from %s failed:\n%s" % (spec, out[-3000:]))
    hs = []
    for m in re.finditer(r'<<"GEN", "((?:[^"\\]|\\.)*)">>', out.replace("\n", " ")):
        hs.append(json.loads(m.group(1).replace('\\"', '"')))
    return hs, gen, dis


def hist_to_prog(pid, cfg, hist, nthreads, rename=None):
    """history -> scripted program.  An entry is [t, op, a, b]; t = 0 lets time pass to the next timer"""
    th = [[] for _ in range(nthreads)]
    order = []
    for h in hist:
        if h[0] > 0:
            th[h[0] - 1].append(rename(h) if rename else tuple(h[1:]))
        order.append(h[0])
    return prog_line(pid, cfg, th, order)
