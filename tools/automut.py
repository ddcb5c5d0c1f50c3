#!/usr/bin/env python3
"""automut.py survivors OUT.json [WORKERS] : mutates every source file and lists
the mutations that build and pass the tests.
automut.py checks IN.json OUT.json [START [STEP]] : runs the checks on those, until one
reports it. Uses /tmp/gosym and /tmp/mutgen."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
FILES = ["arfs/arfs.go", "arfs/create.go", "tarfs/create.go", "tarfs/tarfs.go", "erofs/erofs.go", "erofs/reader.go", "erofs/writer.go", "memfs/memfs.go", "erofs/owner_unix.go"]
# checks in the order in which they are tried
CHECKS = {
    "arfs/arfs.go": "C01 C02 C04 C24 C25 C22 C26 C17", "arfs/create.go": "C01 C02 C03 C22 C23 C27 C28 C26",
    "tarfs/create.go": "C09 C23 C05 C22 C27 C28 C26", "tarfs/tarfs.go": "C05 C24 C09 C25 C07 C06 C08 C26 C17 C23",
    "erofs/erofs.go": "C10 C11 C25 C24 C15 C14 C16 C06 C17 C26", "erofs/reader.go": "C10 C11 C15 C24 C14 C13 C16 C25 C12 C17 C26",
    "erofs/writer.go": "C10 C11 C14 C12 C23 C13 C22 C27 C28 C26", "memfs/memfs.go": "C18 C19 C20 C21 C25 C27 C28 C26", "erofs/owner_unix.go": "C11 C28 C10 C26",
}
def run(cmd, cwd, timeout=300):
    try:
        q = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
        return q.returncode, q.stdout + q.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def points(f):
    rc, o = run(["/tmp/mutgen", "/repo/" + f], "/")
    return [l.split("\t") for l in o.strip().split("\n")]
def survivors(out, workers):
    todo = [(f, p) for f in FILES for p in points(f)]
    dirs = []
    for i in range(workers):
        d = "/tmp/am-%d-%d" % (os.getpid(), i); subprocess.check_call(["cp", "-a", "/repo", d]); dirs.append(d)
    res, stats = [], {}
    def one(a):
        f, p = a
        d = dirs.pop()
        try:
            rc, s = run(["/tmp/mutgen", "/repo/" + f, p[0]], "/")
            open(d + "/" + f, "w").write(s)
            rc, o = run(["go", "build", "./..."], d)
            if rc: k = "build"
            else:
                rc, o = run(["go", "test", "-vet=off", "-timeout", "30s", "./..."], d, 100)
                k = "killed" if rc else "survived"
                if k == "survived": res.append([f] + p)
            stats[k] = stats.get(k, 0) + 1
            shutil.copy("/repo/" + f, d + "/" + f)
        finally:
            dirs.append(d)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(one, todo))
    for d in dirs: shutil.rmtree(d)
    res.sort(key=lambda r: (r[0], int(r[1])))
    json.dump(res, open(out, "w"), indent=0); print(stats)
def checks(inp, out, start, step):
    todo = json.load(open(inp))[start::step]
    done = {}
    if os.path.exists(out): done = {(r[0], r[1]): r for r in json.load(open(out))}
    d = "/tmp/am-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/verif"); subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", V + "/harness", d + "/verif/"]); shutil.copy(V + "/known_findings.txt", d + "/verif/")
    g = d + "/verif/harness/go.mod"; s = open(g).read().replace("=> /repo", "=> " + d + "/repo"); open(g, "w").write(s)
    for r in todo:
        f, n = r[0], r[1]
        if (f, n) in done: continue
        rc, s = run(["/tmp/mutgen", "/repo/" + f, n], "/"); open(d + "/repo/" + f, "w").write(s)
        rc, o = run(["go", "build", "./..."], d + "/repo")
        if rc: continue
        t = time.time(); got = ""
        for c in CHECKS[f].split():
            rc, o = run([os.environ.get("GOSYM", "/tmp/gosym"), "-j", "4", "-verif", d + "/verif", "-check", c.lower()], d + "/repo", 600)
            if rc == 1 and "VIOLATION" in o:
                w = re.search(r"counterexample in (.*)", o); got = c + " " + (w.group(1)[:100] if w else ""); break
            if rc not in (0, 1): got = c + " rc %d %s" % (rc, o[-200:]); break
        shutil.copy("/repo/" + f, d + "/repo/" + f)
        done[(f, n)] = r[:4] + [got]
        json.dump(list(done.values()), open(out, "w"), indent=0)
        print(f, r[2], r[3], "->", got or "MISSED", "%.0fs" % (time.time() - t), flush=True)
    shutil.rmtree(d)
if sys.argv[1] == "survivors": survivors(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 2)
else: checks(sys.argv[2], sys.argv[3], *(int(x) for x in (sys.argv[4:6] + ["0", "1"][len(sys.argv[4:6]):])))
