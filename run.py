#!/usr/bin/env python3
"""Builds the monitored drivers of one property from /repo's working tree and runs them.

  run.py check P04            quick or thorough by VERIF_TIER, seed from VERIF_SEED
  run.py replay FILE          re-runs the case named in a replay file
  run.py build P04            only builds
Exit: 0 held on everything explored, 1 violation (VIOLATION line printed), 2 no answer.
"""
import sys, os, json, subprocess, hashlib, time, struct, re, signal, threading, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLPOLY_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS

NCPU = int(os.environ.get("VERIF_JOBS", "8"))
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
VARIANTS = {
    # sanitized build, assertions of the library and of libstdc++ on
    "san": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DDEBUG",
    # what users ship: optimised, assertions off
    "rel": "-O2 -g1 -DNDEBUG",
    # containers of libstdc++ in debug mode: invalid iterators, singular ranges, comparison objects that are no strict weak order
    "dbg": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG -DDEBUG",
    # memcheck / coverage builds
    "val": "-O1 -g -D_GLIBCXX_ASSERTIONS",
    "cov": "-O0 -g --coverage -fno-inline",
}
COMMON = "-std=c++20 -w -pthread -I{repo} -I{verif}/harness".format(repo=REPO, verif=VERIF)
HOOK = "-DCLPOLY_VERIF_MONITOR=1"
LIBCC = ["associatedgraph.cc", "polynomial_gcd.cc", "realroot.cc", "upolynomial.cc", "variable.cc"]
ENV_SAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0:hard_rss_limit_mb=3500:handle_abort=1:color=never",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never"}

def log(*a): print(*a, flush=True)

def tree_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "clpoly")
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def harness_hash(extra):
    h = hashlib.sha256()
    for d in ("harness",):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            h.update(open(os.path.join(VERIF, d, f), "rb").read())
    for e in extra: h.update(open(os.path.join(VERIF, e), "rb").read())
    return h.hexdigest()

def compile_one(src, obj, flags, logs):
    if os.path.exists(obj): return True
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = "g++ %s %s -c %s -o %s" % (COMMON, flags, src, tmp)
    if "--coverage" in flags: cmd = "cd %s && g++ %s %s -c %s -o %s" % (os.path.dirname(obj), COMMON, flags, src, os.path.basename(obj))
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if r.returncode != 0:
        logs.append("$ %s\n%s" % (cmd, r.stderr[-6000:])); return False
    if "--coverage" not in flags: os.rename(tmp, obj)
    return True

def build(prop, variants):
    """Returns {(driver, variant): exe} or None when the tree does not build."""
    c = CHECKS[prop]; th = tree_hash(); res = {}; logs = []
    jobs = []
    for v in variants:
        flags = VARIANTS[v] + " " + HOOK
        lib = []
        for s in LIBCC:
            k = hashlib.sha256((th + flags + s + COMMON).encode()).hexdigest()[:24]
            d = os.path.join(BUILD, v); os.makedirs(d, exist_ok=True)
            o = os.path.join(d, "lib-%s-%s.o" % (s[:-3], k)); lib.append(o)
            jobs.append((os.path.join(REPO, "clpoly", s), o, flags, 0))
        hk = hashlib.sha256((harness_hash([]) + flags + COMMON).encode()).hexdigest()[:24]
        vho = os.path.join(BUILD, v, "vh-%s.o" % hk)
        jobs.append((os.path.join(VERIF, "harness", "vh.cc"), vho, flags, 0))
        for d in c["drivers"]:
            if v not in d.get("variants", c.get("variants", ["san", "rel"])) and v != "cov": continue
            k = hashlib.sha256((th + harness_hash(["drivers/" + s for s in d["src"]]) + flags + COMMON).encode()).hexdigest()[:24]
            objs = []
            for s in d["src"]:
                o = os.path.join(BUILD, v, "drv-%s-%s.o" % (s.replace(".cc", ""), k)); objs.append(o)
                jobs.append((os.path.join(VERIF, "drivers", s), o, flags, 1))
            res[(d["name"], v)] = (os.path.join(BUILD, v, "exe-%s-%s" % (d["name"], k)), objs + [vho] + lib, flags, d)
    seen = set(); jl = []
    for j in sorted(jobs, key=lambda j: -j[3]):
        if j[1] not in seen: seen.add(j[1]); jl.append(j)
    with ThreadPoolExecutor(NCPU) as ex:
        ok = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], logs), jl))
    if not all(ok):
        for l in logs: log(l)
        return None
    out = {}
    def link(item):
        key, (exe, objs, flags, d) = item
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = "g++ %s %s -o %s -lflint -lgmpxx -lmpfr -lgmp %s" % (flags, " ".join(objs), tmp, d.get("libs", ""))
            r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
            if r.returncode != 0: logs.append("$ %s\n%s" % (cmd, r.stderr[-4000:])); return None
            os.rename(tmp, exe)
        return (key, exe)
    with ThreadPoolExecutor(NCPU) as ex: links = list(ex.map(link, res.items()))
    if any(l is None for l in links):
        for l in logs: log(l)
        return None
    return dict(links)

def read_progress(p):
    try: b = open(p, "rb").read()
    except OSError: return None
    if len(b) < 96: return None
    magic, state, done = struct.unpack_from("<IIQ", b, 0)
    if magic != 0x56485052: return None
    scen = b[16:80].split(b"\0")[0].decode(); idx, = struct.unpack_from("<Q", b, 80)
    text = b[88:].split(b"\0")[0].decode("utf-8", "replace")
    return dict(state=state, scen=scen, idx=idx, text=text)

def classify(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        if "hard rss limit" in err: return "memory-blowup"
        return "asan:" + m.group(1)
    if "hard rss limit" in err: return "memory-blowup"
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param)[^\n]*", err)
    if m: return "memcheck:" + m.group(1).replace(" ", "-")
    if "Error: " in err and "debug/" in err: return "libstdc++-debug"
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m: return "leak"
    m = re.search(r"([\w./+-]+):(\d+):\d+: runtime error: ([^\n]*)", err)
    if m: return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"-?\d+", "N", m.group(3))[:80])
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m: return "assert:" + m.group(1)[:100]
    if "terminate called" in err: return "terminate"
    if "stack-overflow" in err: return "asan:stack-overflow"
    if rc < 0: return "signal:%d" % -rc
    return "exit:%d" % rc

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []; self.stats = []; self.lock = threading.Lock(); self.errors = []; self.inconclusive = []
        self.dir = os.path.join(OUT, "%s-%s-%d-%d" % (prop, tier, seed, os.getpid())); os.makedirs(self.dir, exist_ok=True)
        self.n = 0; self.t0 = time.time()

    def spawn(self, exe, args, variant, driver, tag, wall):
        with self.lock: self.n += 1; n = self.n
        out = os.path.join(self.dir, "o%d" % n); prog = os.path.join(self.dir, "p%d" % n); errf = os.path.join(self.dir, "e%d" % n)
        env = dict(os.environ)
        if variant in ("san", "dbg"): env.update(ENV_SAN); env.update(driver.get("env", {}))
        cmd = [exe] + args + ["--out", out, "--progress", prog]
        if variant not in ("san", "dbg", "val"): cmd += ["--rss-mb", "3500"]
        if variant == "val": cmd = ["valgrind", "--error-exitcode=99", "--exit-on-first-error=yes", "-q", "--undef-value-errors=yes", "--leak-check=no"] + [exe] + args + ["--out", out, "--progress", prog]
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True, cwd=self.dir)
            try: rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "wall"
        err = open(errf, "r", errors="replace").read()
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try: recs.append(json.loads(line))
                except ValueError: pass
        pr = read_progress(prog)
        for f in (out, prog, errf):
            try: os.unlink(f)
            except OSError: pass
        return rc, err, recs, pr

    def add(self, recs, variant, driver, seed):
        with self.lock:
            for r in recs:
                if r["t"] == "V": self.viol.append(dict(key="%s:%s" % (r["scen"], r["key"]), scen=r["scen"], idx=r["idx"], msg=r["msg"], desc=r["desc"], variant=variant, driver=driver["name"], seed=seed))
                elif r["t"] == "S": r["variant"] = variant; r["driver"] = driver["name"]; self.stats.append(r)

    def shard(self, exe, variant, driver, shard, nshards, seed, stop_at):
        # quick runs never outlast their time limit: no new case after stop_at, nothing at all after t0 + 800 s
        left = lambda most: most if self.tier == "thorough" else max(20, min(most, self.t0 + 800 - time.time()))
        base = [] if stop_at is None else ["--stop-at", "%.1f" % stop_at]
        base += ["--seed", str(seed), "--tier", self.tier, "--shard", str(shard), "--nshards", str(nshards), "--scale", str(driver.get("scale", {}).get(variant, 1.0))]
        limit = int(driver.get("limit_ms", {}).get(variant, 12000)) * (5 if self.tier == "thorough" else 1)
        frm = []; crashes = 0
        while True:
            rc, err, recs, pr = self.spawn(exe, base + frm + ["--limit-ms", str(limit)], variant, driver, "s", left(6000))
            self.add(recs, variant, driver, seed)
            if rc == 0: return
            if self.tier == "quick" and self.viol and time.time() - self.t0 > 200: return # decided; do not run out the clock
            if pr is None or pr["state"] == 0 and rc not in (99, "wall"):
                with self.lock: self.errors.append("driver %s/%s died outside a case: rc=%s %s" % (driver["name"], variant, rc, err[-500:]))
                return
            where = "%s#%d" % (pr["scen"], pr["idx"])
            if rc == "wall":
                with self.lock: self.inconclusive.append("wall-clock watchdog at " + where)
                return
            kind = None
            if rc == 86 or rc in (-9, -14, -27):
                # out of its CPU budget (or killed): decide by one re-run alone with a much larger budget
                rc2, err2, recs2, pr2 = self.spawn(exe, base + ["--only", where, "--limit-ms", str(limit * 4)], variant, driver, "r", left(900))
                if rc2 == 0: self.add(recs2, variant, driver, seed)
                elif rc2 == 86: kind = "hang"; err = "case used more than %d s of CPU time twice" % (limit * 4 // 1000)
                elif rc2 in ("wall", -9): self.inconclusive.append("watchdog/killed at " + where)
                else: kind = "crash:" + classify(rc2, err2); err = err2
            else:
                kind = "crash:" + classify(rc, err)
                if kind in ("crash:memory-blowup",):
                    rc2, err2, recs2, pr2 = self.spawn(exe, base + ["--only", where, "--limit-ms", str(limit * 4)], variant, driver, "r", left(900))
                    if rc2 == 0: kind = None; self.add(recs2, variant, driver, seed)
            if kind:
                with self.lock:
                    self.viol.append(dict(key="%s:%s" % (pr["scen"], kind), scen=pr["scen"], idx=pr["idx"], msg=err[-5000:], desc=pr["text"], variant=variant, driver=driver["name"], seed=seed))
                crashes += 1
                if crashes >= (3 if kind == "hang" or kind.endswith("hang") else 8): return
            frm = ["--from", "%s#%d" % (pr["scen"], pr["idx"] + 1)]

def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m: known.append(m.groups())
    return known

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    variants = c.get("variants", ["san", "rel"])
    if tier == "thorough": variants = c.get("variants_thorough", variants)
    exes = build(prop, variants)
    tb = time.time() - t0
    if exes is None:
        log("ERROR: /repo does not build with the drivers of %s" % prop); return 2
    R = Run(prop, tier, seed); R.t0 = t0
    tasks = []
    groups = [(d, v) for d in c["drivers"] for v in variants if (d["name"], v) in exes and v in d.get("variants", variants)]
    now = time.time(); end = max(now + 60, t0 + 600)
    for g, (d, v) in enumerate(groups):
            stop_at = None if tier == "thorough" else now + (end - now) * (g + 1) / len(groups)
            ns = d.get("shards", NCPU)
            for s in range(ns):
                tasks.append((exes[(d["name"], v)], v, d, s, ns, seed if v == "san" else seed + 1000003, stop_at))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(R.shard, *t) for t in tasks]: f.result()
    try: os.rmdir(R.dir)
    except OSError: pass
    return finish(prop, tier, seed, R, t0, tb, variants)

def finish(prop, tier, seed, R, t0, tb, variants):
    c = CHECKS[prop]
    known = [k for k in load_known() if k[0] == prop]
    ev = 0; nt = set(); events = {}; maxima = {}; scen = {}; samples = []; inc = 0
    for s in R.stats:
        ev += s["evaluations"]; inc += s["inconclusive"]; nt.update(s["nt"])
        for k, v in s["events"].items():
            if not k.startswith("cpu_us"): events[k] = events.get(k, 0) + v
        for k, v in s["maxima"].items():
            if not k.startswith("max_case_us"): maxima[k] = max(maxima.get(k, 0), v)
        for k, v in s["scen"].items():
            a = scen.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
        samples += s["samples"]
    new, hit = [], {}
    for v in R.viol:
        m = [k for k in known if k[1] == v["key"]]
        if m: hit[m[0][1]] = m[0]
        else: new.append(v)
    for k, f in sorted(hit.items()): log("KNOWN-FINDING: property=%s %s" % (prop, f[2]))
    samples.sort(key=lambda s: hashlib.md5(s.encode()).hexdigest())
    by_scen = {}
    for s in samples: by_scen.setdefault(s.split("#")[0], s)
    evid = dict(property=prop, tier=tier, seed=seed, level=c.get("level", "exploration"),
                coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=c["rule"],
                              samples=list(by_scen.values())[:8] or samples[:3],
                              observed_events=events, observed_maxima=maxima,
                              scenarios={k: dict(cases=v[0], nontrivial=v[1]) for k, v in sorted(scen.items())},
                              builds=[dict(variant=v, flags=VARIANTS[v]) for v in variants],
                              inconclusive=inc + len(R.inconclusive), known_findings_observed=len(hit)),
                assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(evid, f, indent=1)
    log("%s %s seed=%d: %d executions, %d distinct non-trivial, %d monitor checks, build %.1fs, total %.1fs" % (prop, tier, seed, ev, len(nt), events.get("checks", 0) + events.get("canonical-form checks", 0), tb, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        tot = {}
        mx = {}
        for s in R.stats:
            for k, v in s["events"].items():
                if k.startswith("cpu_us:"): tot[(k[7:], s["variant"])] = tot.get((k[7:], s["variant"]), 0) + v
            for k, v in s["maxima"].items():
                if k.startswith("max_case_us:"): mx[(k[12:], s["variant"])] = max(mx.get((k[12:], s["variant"]), 0), v)
        for k in sorted(tot): log("   %-34s %-4s cpu %.2fs max case %.2fs cases %s" % (k[0], k[1], tot[k] / 1e6, mx[k] / 1e6, scen[k[0]]))
        for k in sorted(events): log("   event %-50s %d" % (k, events[k]))
    if new:
        groups = {}
        for v in new: groups.setdefault(v["key"], v)
        rd = os.path.join(VERIF, ".out", "replay"); os.makedirs(rd, exist_ok=True)
        for i, (k, v) in enumerate(sorted(groups.items())):
            p = os.path.join(rd, "%s-%s-%d.json" % (prop, re.sub(r"[^\w.-]+", "_", v["scen"]), v["idx"]))
            with open(p, "w") as f: json.dump(dict(property=prop, tier=tier, **v), f, indent=1)
            if i < 12:
                log("--- %s [%s] case %s#%d seed %d\n    input: %s\n    %s" % (k, v["variant"], v["scen"], v["idx"], v["seed"], v["desc"][:1500], v["msg"][:2500]))
                log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for i in R.inconclusive: log("inconclusive: " + i)
    if R.errors:
        for e in R.errors: log("ERROR: " + e)
        return 2
    if R.inconclusive and len(R.inconclusive) > 3: return 2
    if ev == 0 or len(nt) < 2 or not events.get("checks"):
        log("ERROR: the run observed nothing"); return 2
    if inc * 4 > ev:
        log("ERROR: too many inconclusive cases (%d of %d)" % (inc, ev)); return 2
    dead = [k for k, v in scen.items() if v[0] >= 20 and v[1] == 0 and not k.startswith("known_")]
    if dead:
        log("ERROR: scenarios without a single non-trivial case: %s" % dead); return 2
    return 0

def replay(path):
    v = json.load(open(path))
    exes = build(v["property"], [v["variant"]])
    if exes is None: return 2
    env = dict(os.environ)
    if v["variant"] in ("san", "dbg"): env.update(ENV_SAN)
    cmd = [exes[(v["driver"], v["variant"])], "--seed", str(v["seed"]), "--tier", v["tier"], "--only", "%s#%d" % (v["scen"], v["idx"]), "--limit-ms", "120000"]
    if v["variant"] == "val": cmd = ["valgrind", "--error-exitcode=99", "-q"] + cmd
    log(" ".join(cmd))
    return subprocess.run(cmd, env=env).returncode

def main():
    a = sys.argv[1:]
    if a[0] == "check": return check(a[1])
    if a[0] == "replay": return replay(a[1])
    if a[0] == "build": return 0 if build(a[1], a[2:] or CHECKS[a[1]].get("variants", ["san", "rel"])) else 2
    if a[0] == "setup":
        os.makedirs(BUILD, exist_ok=True); os.makedirs(OUT, exist_ok=True)
        r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
        log(r.stdout.splitlines()[0]); return 0
    print(__doc__); return 2
if __name__ == "__main__": sys.exit(main())
