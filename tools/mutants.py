#!/usr/bin/env python3
"""Runs the existing tests and the checks on the mutants of tools/mutate.
usage: mutants.py MUTDIR RESULTS [FILE...]   (development aid, no check uses it)
"""
import json, os, subprocess, sys, tempfile, shutil, multiprocessing as mp
mutdir, results = sys.argv[1:3]
only = sys.argv[3:]
scale = os.environ.get("SCALE", "0.15")
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
    GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", TZ="Asia/Shanghai", VERIF_SCALE=scale, GOMAXPROCS="3")
SQLB = ["C12","C16","C13","C14","C15","C07","C09","C18","C06","C17","C19","C21","C10","C11","C04"]
CORE = ["C05","C01","C03","C04","C02","C20","C10","C11","C07","C06","C09","C17","C21"]
def order(f):
    if f.startswith("sqlb"): o = SQLB
    elif f.startswith("util"): o = ["C17","C18","C19","C06","C13","C21","C20"]
    else: o = CORE + ["C12"]
    return list(dict.fromkeys(o))
def run(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, ""
def one(job):
    f, n, line, desc = job
    w = tempfile.mkdtemp(prefix="verif-mut.")
    try:
        ov = w + "/ov.json"
        repl = {"/repo/" + f: "%s/%s/%s.go" % (mutdir, f, n)}
        if os.path.exists("%s/%s/helper.go" % (mutdir, f)):
            repl["/repo/" + os.path.join(os.path.dirname(f), "zz_helper.go")] = "%s/%s/helper.go" % (mutdir, f)
        json.dump({"Replace": repl}, open(ov, "w"))
        rc, out = run(["go", "build", "-overlay", ov, "./..."], "/repo", 100)
        if rc: return job, "nobuild", ""
        env.pop("VERIF_MARK", None)
        rc, out = run(["go", "test", "-vet=off", "-overlay", ov, "-timeout", "20s", "./..."], "/repo", 100)
        if rc: return job, "tests", ""
        rc, out = run(["go", "build", "-overlay", ov, "-o", w + "/h", "."], os.environ.get("HARNESS", "/verif/harness"), 200)
        if rc: return job, "nobuild", out[-300:]
        env["VERIF_MARK"] = w + "/mark"
        for c in order(f):
            rc, out = run([w + "/h", "-check", c, "-root", w], w, 240)
            if rc != 0:
                l = [x for x in out.splitlines() if x.startswith("---") or "INCONCL" in x]
                return job, {1: "caught", -99: "timeout"}.get(rc, "exit%d" % rc), c + " " + (l[0] if l else "")[:200]
        return job, "SURVIVED", "met" if os.path.exists(w + "/mark") else ""
    finally:
        shutil.rmtree(w, ignore_errors=True)
jobs = []
for root, _, files in os.walk(mutdir):
    if "list" in files:
        f = os.path.relpath(root, mutdir)
        if only and f not in only: continue
        for l in open(root + "/list"):
            n, line, desc = l.rstrip("\n").split("\t", 2)
            jobs.append((f, n, line, desc))
jobs.sort()
done = set()
if os.path.exists(results):
    for l in open(results):
        p = l.split("\t"); done.add((p[1], p[2]))
jobs = [j for j in jobs if (j[0], j[1]) not in done]
with open(results, "a") as o, mp.Pool(int(os.environ.get("PAR", "5"))) as pool:
    for (f, n, line, desc), st, info in pool.imap_unordered(one, jobs):
        o.write("\t".join([st, f, n, line, desc, info]) + "\n"); o.flush()
