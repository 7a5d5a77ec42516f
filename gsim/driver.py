#!/usr/bin/env python3
"""gsim driver: builds one property's simulator from /repo's working tree, runs
seeded simulations on all cores, gates / minimises / replays violations, matches
known findings and writes the evidence file.

  driver.py C01                     the check (VERIF_SEED, VERIF_TIER)
  driver.py C01 --replay FILE       replay one replay file, print its log
  driver.py C01 --show SEED INDEX   run one seeded run with its log
  driver.py C01 --determinism N     run N seeds twice at two worker counts, diff hashes
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GSIM_REPO", "/repo")
BUILD = os.environ.get("GSIM_BUILD", os.path.join(VERIF, ".build"))
OUT = os.environ.get("GSIM_OUT", VERIF)
REPLAYS = os.path.join(OUT, "replays")
NPROC = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(VERIF, "props"))
import config  # noqa: E402

WRAPS = """memcpy memmove memset memcmp
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_unlock
pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit
malloc calloc realloc __cxa_allocate_exception
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv clock_gettime gettimeofday time""".split()

BASE_FLAGS = ["-w", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK",
              "-DBOOST_CHRONO_HEADER_ONLY", "-DBOOST_PARAMETER_MAX_ARITY=20", "-DGEOMETRIX_DEFINE_ASSERT_HANDLERS",
              "-I" + REPO, "-I" + HERE, "-I" + os.path.join(VERIF, "props")]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def tree_key(pid, cfg):
    h = hashlib.sha256()
    def add(p):
        h.update(p.encode()); h.update(open(p, "rb").read())
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "geometrix"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".ipp", ".cpp", ".inl")):
                add(os.path.join(root, f))
    for d in (HERE, os.path.join(VERIF, "props")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f.endswith((".hpp", ".cpp")) and (d == HERE or f.endswith(".hpp") or f in cfg["sources"]):
                add(p)
    h.update(repr((cfg["sources"], cfg.get("defines"), BASE_FLAGS, WRAPS)).encode())
    return h.hexdigest()


def build(pid, cfg):
    out = os.path.join(BUILD, pid)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "sim")
    keyf = os.path.join(out, "key")
    key = tree_key(pid, cfg)
    if os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key:
        return exe, 0.0
    t0 = time.time()
    procs = []
    rt = os.path.join(out, "runtime.o")
    defs = cfg.get("defines", [])
    procs.append((["g++", "-std=c++17", "-w", "-O2", "-g1", "-fno-pie"] + defs + ["-c", os.path.join(HERE, "runtime.cpp"), "-o", rt], rt))
    for s in cfg["sources"]:
        o = os.path.join(out, os.path.basename(s) + ".o")
        procs.append((["g++", "-std=c++14"] + BASE_FLAGS + defs + ["-c", os.path.join(VERIF, "props", s), "-o", o], o))
    running = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c, _ in procs]
    for c, p in running:
        txt = p.communicate()[0]
        if p.returncode:
            print(txt[-6000:])
            die("the simulator for %s does not compile against %s" % (pid, REPO))
    link = ["g++", "-no-pie", "-rdynamic", "-o", exe] + [o for _, o in procs] + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lpthread"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        die("link failed")
    open(keyf, "w").write(key)
    return exe, time.time() - t0


def run_workers(exe, out, seed, runs, tlimit, nw=NPROC, maxviol=4, dump=0):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ps = []
    try:
        cpus = sorted(os.sched_getaffinity(0))
    except AttributeError:
        cpus = list(range(nw))
    for w in range(nw):
        env = dict(os.environ, GSIM_CPU=str(cpus[w % len(cpus)]))
        ps.append(subprocess.Popen([exe, "worker", str(w), str(nw), str(seed), str(runs), str(tlimit), os.path.join(out, "w%d" % w), out, str(maxviol), str(dump)],
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    res = []
    for w, p in enumerate(ps):
        try:
            txt = p.communicate(timeout=tlimit + 120)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            die("worker %d did not finish" % w)
        if p.returncode:
            die("worker %d failed (%d): %s" % (w, p.returncode, txt[-2000:]))
        res.append(json.load(open(os.path.join(out, "w%d.json" % w))))
    return res


def replay(exe, path, trace=True):
    r = subprocess.run([exe, "replay", path] + (["trace"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if not r.stdout.strip():
        die("replay produced nothing: " + r.stderr[-500:])
    return json.loads(r.stdout.strip().splitlines()[-1])


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def symbolise(exe, pcs):
    if not pcs:
        return []
    r = subprocess.run(["addr2line", "-Cfse", exe] + [hex(p - 1) for p in pcs], stdout=subprocess.PIPE, text=True)
    l = r.stdout.splitlines()
    return ["%s at %s" % (l[i][:200], l[i + 1]) for i in range(0, len(l) - 1, 2)]


def count_distinct(out, suffix):
    s = set()
    for f in os.listdir(out):
        if f.endswith(suffix):
            b = open(os.path.join(out, f), "rb").read()
            for i in range(0, len(b) - 7, 8):
                s.add(b[i:i + 8])
    return len(s)


def main():
    pid = sys.argv[1]
    cfg = config.PROPERTIES.get(pid)
    if not cfg:
        die("unknown property " + pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t_start = time.time()
    exe, bt = build(pid, cfg)
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        r = replay(exe, path)
        print(r["log"])
        print("status=%s class=%s hash=%s\n%s" % ({1: "held", 2: "violation"}.get(r["status"], "error"), r["class"], r["hash"], r["msg"]))
        for s in symbolise(exe, r["pcs"]):
            print("  " + s)
        if r["status"] == 2:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        sys.exit(0 if r["status"] == 1 else 2)
    if "--show" in sys.argv:
        k = sys.argv.index("--show")
        r = json.loads(subprocess.run([exe, "seed", sys.argv[k + 1], sys.argv[k + 2]], stdout=subprocess.PIPE, text=True).stdout)
        print(r["log"]); r["log"] = ""
        print(r)
        sys.exit(0)
    if "--determinism" in sys.argv:
        n = int(sys.argv[sys.argv.index("--determinism") + 1])
        def dump(tag, nw):
            out = os.path.join(BUILD, pid, "det-" + tag)
            run_workers(exe, out, seed, n, 3600, nw=nw, maxviol=1000, dump=1)
            d = {}
            for f in os.listdir(out):
                if f.endswith(".dump"):
                    for line in open(os.path.join(out, f)):
                        i, rest = line.split(" ", 1)
                        d[int(i)] = rest
            shutil.rmtree(out)
            return d
        a, b = dump("a", NPROC), dump("b", max(1, NPROC - 3))
        bad = [i for i in a if a[i] != b.get(i)]
        print("determinism: %d seeds, %d diverged %s" % (len(a), len(bad), bad[:10]))
        sys.exit(2 if bad else 0)

    runs, tlimit = cfg[tier]
    for f in os.listdir(REPLAYS) if os.path.isdir(REPLAYS) else []:
        if f.startswith(pid + "-"):
            os.remove(os.path.join(REPLAYS, f))
    out = os.path.join(BUILD, pid, "run")
    t_run = time.time()
    res = run_workers(exe, out, seed, runs, tlimit)
    run_wall = time.time() - t_run
    errors = [r["error"] for r in res if r["error"]]
    if errors:
        die("simulator error: " + errors[0])
    viols = {}
    for r in res:
        for v in r["violations"]:
            c = v["class"]
            if c not in viols or v["index"] < viols[c]["index"]:
                viols[c] = v
    # determinism self-check on a sample of this check's own seeds
    det_n = min(runs, 48)
    def hashes(nw, tag):
        o = os.path.join(BUILD, pid, "self-" + tag)
        run_workers(exe, o, seed, det_n, 60, nw=nw, maxviol=1000, dump=1)
        d = {}
        for f in os.listdir(o):
            if f.endswith(".dump"):
                for line in open(os.path.join(o, f)):
                    i, rest = line.split(" ", 1)
                    d[int(i)] = rest
        shutil.rmtree(o)
        return d
    ha, hb = hashes(NPROC, "a"), hashes(max(1, NPROC - 3), "b")
    diverged = [i for i in ha if i in hb and ha[i] != hb[i] and " hang" not in ha[i]]
    if diverged and not viols:
        die("nondeterminism: seeds %s diverged between two executions" % diverged[:5])

    tot = lambda k: sum(r[k] for r in res)
    merged = lambda k: {n: sum(r[k].get(n, 0) for r in res) for n in sorted({n for r in res for n in r[k]})}
    kf = {c: t for p, c, t in known_findings() if p == pid}
    reported, known = [], []
    os.makedirs(REPLAYS, exist_ok=True)
    for c, v in sorted(viols.items(), key=lambda kv: kv[1]["index"]):
        if c in kf:
            known.append(c)
            continue
        if len(reported) >= 2:
            continue
        raw = v["replay"]
        final = os.path.join(REPLAYS, "%s-%s.replay" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", c)[:60]))
        m = subprocess.run([exe, "minimise", raw, final, "20" if tier == "quick" else "60"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if m.returncode:
            shutil.copy(raw, final)
        r1, r2 = replay(exe, final), replay(exe, final)
        if r1["status"] != 2 or r2["status"] != 2 or r1["class"] != c or r2["class"] != c:
            shutil.copy(raw, final)
            r1, r2 = replay(exe, final), replay(exe, final)
        if r1["status"] != 2 or r1["class"] != c or r2["class"] != c or (r1["hash"] != r2["hash"] and c != "hang"):
            print("ERROR: violation class %s (run %s) does not replay: %s / %s" % (c, v["index"], r1["class"], r2["class"]))
            continue
        with open(final, "a") as f:
            f.write("# %s\n" % r1["msg"])
            for s in symbolise(exe, r1["pcs"]):
                f.write("#   %s\n" % s)
            for line in r1["log"].splitlines()[-400:]:
                f.write("# %s\n" % line)
        reported.append({"class": c, "message": r1["msg"], "replay": final, "first_run": v["index"], "seed": v["seed"],
                         "choices": sum(r1["tape_len"]), "where": symbolise(exe, r1["pcs"])})
    # a couple of actual executions, written out
    samples = []
    for i in range(2):
        r = json.loads(subprocess.run([exe, "seed", str(seed), str(i)], stdout=subprocess.PIPE, text=True).stdout)
        samples.append({"run": i, "hash": r["hash"], "steps": r["steps"], "preemptions": r["preemptions"], "status": r["status"], "log": r["log"].splitlines()[:40]})
    wall = time.time() - t_start
    n = tot("runs")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": count_distinct(out, ".hash"),
            "rule": cfg["rule"],
            "samples": samples,
            "simulated_runs": n,
            "seeds_per_hour": int(n / max(run_wall, 1e-9) * 3600),
            "simulated_steps": tot("steps"),
            "simulated_time": {"logical_steps": tot("steps"), "clock_ns": tot("simns")},
            "fault_kinds_injected": merged("faults"),
            "runs_with_a_fault": tot("faulted_runs"),
            "preemptions": tot("preemptions"),
            "preemptions_inside_library_code": tot("sut_preemptions"),
            "runs_with_a_preemption": tot("preempted_runs"),
            "distinct_interleavings": count_distinct(out, ".sched"),
            "interleaving_measure": "hash of the sequence of (from task, to task, step number, code address) at every switch",
            "simulated_heap_allocations": tot("allocs"),
            "probes": merged("probes"),
            "violation_classes": merged("classes"),
            "determinism_self_check": {"seeds": len(ha), "diverged": len(diverged)},
            "components": cfg["components"],
            "build_s": round(bt, 1), "explore_s": round(run_wall, 1),
        },
        "assumptions": cfg.get("assumptions", []) + ["bounds: " + cfg["bounds"]],
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if reported:
        ev["coverage"]["reported"] = reported
    if known:
        ev["coverage"]["known_findings_hit"] = known
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for c, t in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s %s: %d runs, %d distinct non-trivial, %d interleavings, faults %s, %.1fs (build %.1fs)" % (
        pid, tier, n, ev["coverage"]["distinct_nontrivial"], ev["coverage"]["distinct_interleavings"], ev["coverage"]["fault_kinds_injected"], wall, bt))
    for p in cfg.get("required_probes", []):
        if not merged("probes").get(p) and not reported and not viols:
            die("probe '%s' was never reached: the workload does not exercise what it claims" % p)
    if reported:
        for r in reported:
            print("  %s: %s" % (r["class"], r["message"]))
            for s in r["where"]:
                print("    " + s)
        for r in reported:
            print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
        sys.exit(1)
    if [c for c in viols if c not in kf]:
        die("a violation was seen but did not replay")
    sys.exit(0)


if __name__ == "__main__":
    main()
