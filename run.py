#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]      decide one property against /repo's working tree
   run.py --replay <file>            re-execute a recorded violation
   run.py --setup                    sanity-check the tool chain"""
import sys, os, json, time, shutil, subprocess, tempfile, glob, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("NN_REPO", "/repo")
import checks

CPU = set()
try:
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            CPU = set(l.split(":", 1)[1].split()); break
except OSError: pass

def best_arch():
    if "avx512f" in CPU: a = "-mavx512f"
    elif "avx2" in CPU: a = "-mavx2"
    elif "avx" in CPU: a = "-mavx"
    else: a = ""
    if "fma" in CPU and a: a += " -mfma"
    return a

def blas_flags():
    try:
        return subprocess.run(["pkg-config", "--cflags", "--libs", "openblas"], capture_output=True, text=True, check=True).stdout.split()
    except Exception:
        return None

REPO_FLAGS = "-std=c99 -fopenmp -g -w"
ASAN = "-O1 -fno-omit-frame-pointer -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=all"
def configs():
    b = blas_flags()
    c = {
        "sse":    ("-O3", True),
        "avx":    ("-O3 -mavx", "avx" in CPU),
        "avx2":   ("-O3 -mavx2 -mfma", {"avx2", "fma"} <= CPU),
        "avx2nf": ("-O3 -mavx2", "avx2" in CPU),
        "avx512": ("-O3 -mavx512f -mfma", {"avx512f", "fma"} <= CPU),
        "avx512o1": ("-O1 -mavx512f -mfma", {"avx512f", "fma"} <= CPU),
        "best":   ("-O3 " + best_arch(), True),
        "asan":   (ASAN + " " + best_arch(), True),
        "asansse": (ASAN, True),
        "asanavx2": (ASAN + " -mavx2 -mfma", {"avx2", "fma"} <= CPU),
        "o1":     ("-O1 " + best_arch(), True),
        "tsan":   ("-O1 -fsanitize=thread -fno-builtin-memset -fno-builtin-memcpy " + best_arch(), True),
        "tsansse": ("-O1 -fsanitize=thread -fno-builtin-memset -fno-builtin-memcpy -fno-tree-vectorize", True),
    }
    if b is not None:
        bf = " ".join(b)
        c["blas"] = ("-O3 " + best_arch() + " -DUSE_CBLAS " + bf, True)
        c["blassse"] = ("-O3 -DUSE_CBLAS " + bf, True)
        c["tsanblas"] = ("-O1 -fsanitize=thread -fno-builtin-memset -fno-builtin-memcpy " + best_arch() + " -DUSE_CBLAS " + bf, True)
        c["blasasan"] = (ASAN + " " + best_arch() + " -DUSE_CBLAS " + bf, True)
    return {k: v[0] for k, v in c.items() if v[1]}

CONFIGS = configs()

class Infra(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)
    if p.returncode: raise Infra("command failed: %s\n%s" % (cmd, (p.stdout + p.stderr)[-4000:]))
    return p.stdout

def sources():
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/npy_array/*.c"))

def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*") + glob.glob(REPO + "/npy_array/*")):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

CACHE = os.path.join(HERE, ".cache")
class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.libs = {}
        self.th = tree_hash()
    def start_lib(self, cfg, extra=""):
        """compile every source of the library for one configuration -> list of objects"""
        key = (cfg, extra)
        if key in self.libs: return
        flags = "%s %s %s" % (REPO_FLAGS, CONFIGS[cfg], extra)
        hk = hashlib.sha256((self.th + flags).encode()).hexdigest()[:24]
        cached = os.path.join(CACHE, hk + ".a")
        d = os.path.join(self.scratch, "lib-%s-%d" % (cfg, len(self.libs)))
        os.mkdir(d)
        try:                                          # a private copy: the cached file may be evicted meanwhile
            shutil.copy(cached, os.path.join(d, "libnn.a")); os.utime(cached)
            self.libs[key] = ([], os.path.join(d, "libnn.a"), None); return
        except OSError: pass
        procs = []; objs = []
        for s in sources():
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            procs.append((s, "gcc %s -I%s/src -I%s/npy_array -c %s -o %s" % (flags, REPO, REPO, s, o)))
        self.libs[key] = (procs, os.path.join(d, "libnn.a"), (objs, cached))
    def finish(self):
        pend = []
        for key, (procs, lib, more) in self.libs.items():
            pend += procs
        run_parallel(pend)
        for key, (procs, lib, more) in list(self.libs.items()):
            if more:
                objs, cached = more
                sh(["ar", "rcs", lib] + objs)
                try:
                    os.makedirs(CACHE, exist_ok=True)
                    tmp = cached + ".%d" % os.getpid()
                    shutil.copy(lib, tmp); os.rename(tmp, cached)
                    ents = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
                    for f in ents[:-60]: os.unlink(f)
                except OSError: pass
                self.libs[key] = ([], lib, None)

def run_parallel(cmds, width=None):
    width = width or (os.cpu_count() or 4)
    running = []; errs = []
    cmds = list(cmds)
    while cmds or running:
        while cmds and len(running) < width:
            name, c = cmds.pop(0)
            running.append((name, c, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        name, c, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode: errs.append((name, c, out))
    if errs: raise Infra("build failed: %s\n%s\n%s" % (errs[0][0], errs[0][1], errs[0][2][-3000:]))

def harness_cmd(b, job, out):
    cfg = job["config"]
    lib = b.libs[(cfg, job.get("lib_cflags", ""))][1]
    flags = CONFIGS[cfg]
    if job.get("harness_nosan"):
        flags = " ".join(f for f in flags.split() if "sanitize" not in f)
    src = " ".join(os.path.join(HERE, "harness", s) for s in job["src"])
    pre = job.get("link_pre", "")
    if job.get("fio"): src += " " + HERE + "/lib/faultio.c"
    if job.get("alloc"):
        src += " " + HERE + "/lib/alloc.c"
        if "address" in flags: pre += " -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=strdup"
    return ("gcc -std=gnu11 -g -w -fopenmp %s -I%s/src -I%s/npy_array -I%s/lib -DCONFIG_NAME='\"%s\"' %s %s %s/lib/mc.c %s %s -o %s %s -lzip -lz -ldl -lm -lpthread -rdynamic"
            % (flags, REPO, REPO, HERE, cfg, job.get("cflags", ""), src, HERE, pre, lib, out, " ".join(blas_flags() or []) if "blas" in cfg else ""))

ENV = dict(os.environ, OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1", LC_ALL="C", TZ="UTC", MALLOC_CHECK_="0",
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0",
           UBSAN_OPTIONS="print_stacktrace=0")
ENV.pop("OMP_PROC_BIND", None); ENV.pop("OMP_DISPLAY_ENV", None)

def expand(check, tier):
    jobs = []
    for j in check["jobs"](tier):
        cfgs = j["config"] if isinstance(j["config"], list) else [j["config"]]
        for c in cfgs:
            if c in CONFIGS:
                jj = dict(j); jj["config"] = c; jobs.append(jj)
    return jobs

def known_findings():
    kf = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith("{"): kf.append(json.loads(l))
    except OSError: pass
    return kf

def main_check(pid, tier):
    t0 = time.time()
    check = checks.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="nnmc-")
    os.chmod(scratch, 0o777)
    try:
        b = Builder(scratch)
        jobs = expand(check, tier)
        if not jobs: raise Infra("no applicable configuration")
        for j in jobs: b.start_lib(j["config"], j.get("lib_cflags", ""))
        b.finish()
        exes = {}; cmds = []
        for j in jobs:
            k = (tuple(j["src"]), j["config"], j.get("cflags", ""), j.get("lib_cflags", ""), j.get("link_pre", ""), j.get("alloc"))
            if k not in exes:
                exe = os.path.join(scratch, "h%d" % len(exes))
                exes[k] = exe
                cmds.append((k[0], harness_cmd(b, j, exe)))
            j["exe"] = exes[k]
        run_parallel(cmds)
        if check.get("prepare"): check["prepare"](scratch, REPO, HERE)
        ncpu = os.cpu_count() or 4
        width = min(len(jobs), check.get("parallel", 4))
        results = []
        pending = list(enumerate(jobs)); running = []
        per = max(1, -(-ncpu // width))
        limit = check.get("limit", 690 if tier == "quick" else 20000)
        while pending or running:
            while pending and len(running) < width:
                i, j = pending.pop(0)
                sd = os.path.join(scratch, "s%d" % i); os.mkdir(sd); os.chmod(sd, 0o777)
                out = os.path.join(scratch, "out%d" % i)
                cmd = [j["exe"], "--jobs", str(j.get("jobs", per)), "--out", out, "--set", "scratch=" + sd, "--set", "verif=" + HERE, "--set", "root=" + scratch]
                if j.get("suite"): cmd += ["--suite", j["suite"]]
                for k, v in j.get("set", {}).items(): cmd += ["--set", "%s=%s" % (k, v)]
                if tier == "thorough": cmd.append("--thorough")
                budget = j.get("budget")
                if budget: cmd += ["--budget", str(budget)]
                waves = -(-(len(pending) + 1) // width)      # of jobs still to be started, this one included
                cmd += ["--total", str(int(max(30, (limit - 60 - (time.time() - t0)) / waves)))]
                if any(k.get("property") == pid and k.get("status") == "open" for k in known_findings()): cmd += ["--set", "grace=1e9"]
                j["cmd"] = cmd
                env = dict(ENV); env.update(j.get("env", {}))
                p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), cwd=sd)
                running.append((p, j, out, time.time()))
            done = [r for r in running if r[0].poll() is not None]
            if not done:
                time.sleep(0.02)
                if time.time() - t0 > limit:
                    for r in running:
                        r[0].kill()
                        for g in ([json.loads(l) for l in open(r[2]) if l.endswith("}\n")] if os.path.exists(r[2]) else []): g["config"] = r[1]["config"]; g["job"] = r[1]; g["complete"] = False; results.append(g)
                    if any(f["confirmed"] for g in results for f in g["findings"]): return finish(pid, tier, seed, check, results, t0)
                    raise Infra("time limit exceeded")
                continue
            for r in done:
                running.remove(r)
                p, j, out, st = r
                err = open(out + ".err").read()
                if p.returncode != 0: raise Infra("harness %s (%s) ended with %s: %s" % (j["src"], j["config"], p.returncode, err[-2000:]))
                got = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
                if not got: raise Infra("harness %s produced nothing: %s" % (j["src"], err[-2000:]))
                for g in got:
                    if g["broken"]: raise Infra("harness error in %s/%s: %s" % (j["src"], g["suite"], err[-2000:]))
                    g["config"] = j["config"]; g["job"] = j; results.append(g)
        return finish(pid, tier, seed, check, results, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def finish(pid, tier, seed, check, results, t0):
    kfs = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
    viol = []; known = {}; unconfirmed = []
    for g in results:
        for f in g["findings"]:
            if not f["confirmed"]:
                unconfirmed.append((g, f)); continue
            m = [k for k in kfs if k["key"] == f["key"] and k.get("config", g["config"]) == g["config"]]
            if m: known[m[0]["key"]] = m[0]["what"]
            else: viol.append((g, f))
    for k in kfs:     # a listed finding is always announced
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    tot = lambda n: sum(g[n] for g in results)
    samples = []
    for g in results:
        for s in g["samples"][:2]:
            if len(samples) < 8: samples.append("[%s/%s] %s" % (g["config"], g["suite"], s))
    cov = {}
    if check["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces") or tot("execs"))
    else:
        cov.update(evaluations=tot("evals") or tot("execs"), distinct_nontrivial=tot("nontrivial"), rule=check["rule"])
    cov["samples"] = samples or ["none recorded"]
    cov["exhaustive"] = all(g["complete"] for g in results)
    cov["executions"] = tot("execs")
    cov["bounds"] = check["bounds"]
    cov["suites"] = [{k: g[k] for k in ("suite", "config", "execs", "evals", "nontrivial", "transitions", "states", "pruned", "complete", "wall")} for g in results]
    if unconfirmed:
        cov["not_reproduced"] = ["%s/%s %s: %s" % (g["config"], g["suite"], f["key"], f["msg"][:300]) for g, f in unconfirmed]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check["level"], "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d suites, %d executions, %d evaluations, %d states, complete=%s, %.1fs" % (pid, tier, len(results), tot("execs"), tot("evals"), tot("states"), cov["exhaustive"], time.time() - t0))
    if unconfirmed:
        for u in cov["not_reproduced"][:3]: print("note: not reproduced: " + u)
    if viol:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        for n, (g, f) in enumerate(viol[:5]):
            path = os.path.join(rd, "%s-%d.json" % (pid, n))
            j = g["job"]
            json.dump({"property": pid, "suite": g["suite"], "choices": f["choices"], "key": f["key"], "what": f["msg"], "case": f["ctx"],
                       "history_dependent": f["confirmed"] == 2,
                       "tier": tier, "job": {k: v for k, v in j.items() if k not in ("exe", "cmd")}}, open(path, "w"), indent=1)
            print("  [%s/%s] %s" % (g["config"], g["suite"], f["key"]))
            print("  %s" % f["msg"][:600])
            if f["ctx"]: print("  case: %s" % f["ctx"][:400])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not cov["exhaustive"] and tier == "quick":
        print("note: exploration was cut short")
    return 0

def replay(path):
    r = json.load(open(path))
    check = checks.CHECKS[r["property"]]
    scratch = tempfile.mkdtemp(prefix="nnmc-")
    try:
        b = Builder(scratch); j = r["job"]
        b.start_lib(j["config"], j.get("lib_cflags", "")); b.finish()
        exe = os.path.join(scratch, "h"); run_parallel([("h", harness_cmd(b, j, exe))])
        if check.get("prepare"): check["prepare"](scratch, REPO, HERE)
        cmd = [exe, "--suite", r["suite"], "--set", "scratch=" + scratch, "--set", "verif=" + HERE, "--set", "root=" + scratch, "--replay", ",".join(map(str, r["choices"])) or "0"]
        for k, v in j.get("set", {}).items(): cmd += ["--set", "%s=%s" % (k, v)]
        if r["tier"] == "thorough": cmd.append("--thorough")
        env = dict(ENV); env.update(j.get("env", {}))
        return subprocess.run(cmd, env=env).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def setup():
    for t in ("gcc", "ar"):
        if not shutil.which(t): print("missing", t); return 1
    print("configurations: " + ", ".join(CONFIGS))
    scratch = tempfile.mkdtemp(prefix="nnmc-")
    try:
        b = Builder(scratch)
        for c in CONFIGS:
            if c in ("best", "asan"): b.start_lib(c)
        b.finish()
    finally: shutil.rmtree(scratch, ignore_errors=True)
    return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup": sys.exit(setup())
        if len(a) == 2 and a[0] == "--replay": sys.exit(replay(a[1]))
        if not a or a[0] not in checks.CHECKS: print(__doc__); sys.exit(2)
        sys.exit(main_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    except Infra as e:
        print("ERROR: %s" % e); sys.exit(3)
