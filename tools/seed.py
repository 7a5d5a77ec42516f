#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: each must build, pass the stable tests, and have a
demonstration that passes without and fails with it; then runs this framework's checks against it.

  tools/seed.py SPEC.py        create/refresh the seeded/<id>/ folders a spec file defines, then confirm them
  tools/seed.py --confirm [ID..]   confirm committed folders again
  tools/seed.py --catch [ID..] [-j N]  run the property's quick check against each, print caught or missed
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED, SCRATCH = V + "/seeded", "/tmp/seed/repo"
DEMO = '''#!/bin/bash
# Compiles the demonstration against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -w -O1 %s-I "$PWD" -DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK -DBOOST_CHRONO_HEADER_ONLY -DBOOST_PARAMETER_MAX_ARITY=20 -DSTK_NO_CXX17_STD_SHUFFLE \\
    "$here/demo.cpp" -o "$work/demo" -pthread || { echo "DEMO DOES NOT COMPILE"; exit 2; }
cd "$work" && timeout 120 "$work/demo"
'''


def sh(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    if not os.path.isdir(SCRATCH):
        os.makedirs(os.path.dirname(SCRATCH), exist_ok=True)
        sh(["cp", "-a", "/repo", SCRATCH])
        shutil.rmtree(SCRATCH + "/_build", ignore_errors=True)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", SCRATCH).replace("/opt/vp/build.sh", "/tmp/seed/build.sh")
            open("/tmp/seed/" + f, "w").write(t)
    reset()


def reset():
    head = sh("git -C /repo rev-parse HEAD")[1].strip()
    sh(f"git -C {SCRATCH} fetch -q /repo HEAD; git -C {SCRATCH} checkout -q -f {head}; git -C {SCRATCH} clean -fdq geometrix")


def seed(id, prop, needs, breaks, edits, demo, flags="", **files):
    d = f"{SEEDED}/{id}"
    os.makedirs(d, exist_ok=True)
    reset()
    for f, old, new in edits:
        p = f"{SCRATCH}/geometrix/{f}"
        raw = open(p, "rb").read()
        s = raw.decode("latin-1")
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if n != 1:
            print(f"{id}: edit of {f}: {n} matches"); return
        open(p, "wb").write(s.replace(old, new).encode("latin-1"))
    diff = subprocess.run(["git", "-C", SCRATCH, "diff"], stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % (flags + " " if flags else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    confirm(id)


def confirm(id):
    d = f"{SEEDED}/{id}"
    reset()
    r0, o0 = sh([d + "/demo.sh"], cwd=SCRATCH)
    ra, oa = sh(["git", "-C", SCRATCH, "apply", d + "/patch.diff"])
    if ra:
        print(f"{id}: patch does not apply: {oa}"); return False
    r1, o1 = sh([d + "/demo.sh"], cwd=SCRATCH)
    sh(f"touch $(git -C {SCRATCH} diff --name-only | sed 's#^#{SCRATCH}/#')")
    rt, ot = sh(["bash", "/tmp/seed/test.sh", "/tmp/seed/out.json"])
    res = json.load(open("/tmp/seed/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    lost = sorted(stable - set(res["passed"]))
    ok = r0 == 0 and r1 != 0 and "DOES NOT COMPILE" not in o1 and not lost and res["passed"]
    print(f"{id}: {'OK' if ok else 'REJECTED'} demo clean={r0} patched={r1} ({(o1.strip().splitlines() or [''])[-1][:100]}) tests lost={len(lost)} {lost[:3]}" + ("" if r0 == 0 else "\n  clean: " + o0[-600:]) + ("" if "COMPILE" not in o1 else o1[-600:]), flush=True)
    reset()
    return ok


def catch(id, tier="quick"):
    d = f"{SEEDED}/{id}"
    prop = json.load(open(d + "/meta.json"))["property"]
    work = tempfile.mkdtemp(prefix="catch-", dir="/tmp/seed")
    try:
        sh(f"git -C {SCRATCH} worktree prune; cp -a {SCRATCH}/geometrix {work}/; cp -a {SCRATCH}/.git {work}/")
        ra, oa = sh(["git", "apply", d + "/patch.diff"], cwd=work)
        if ra:
            return id, prop, "patch does not apply " + oa
        env = dict(os.environ, GSIM_REPO=work, GSIM_BUILD=work + "/_gb", GSIM_OUT=work + "/_go")
        r, o = sh([V + "/check", prop], env=env, cwd=V)
        line = next((l for l in o.splitlines() if l.startswith("VIOLATION")), "")
        info = next((l for l in o.splitlines() if "violation" in l.lower() and l != line), "")
        return id, prop, ("caught" if r == 1 and line else f"MISSED rc={r}") + "  " + info[:160]
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    scratch()
    if a and a[0] == "--catch":
        j = 2
        if "-j" in a:
            k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
        ids = a[1:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(j) as ex:
            for r in ex.map(catch, ids):
                print("%-24s %s  %s" % r, flush=True)
    elif a and a[0] == "--confirm":
        for i in a[1:] or sorted(os.listdir(SEEDED)):
            confirm(i)
    else:
        only = a[1:]
        exec(compile(open(a[0]).read(), a[0], "exec"), dict(seed=lambda id, *p, **k: seed(id, *p, **k) if not only or id in only else None))
