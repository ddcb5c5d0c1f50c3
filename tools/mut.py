#!/usr/bin/env python3
"""mut.py FILE CHECK... : tries source mutations against checks in a scratch copy.

FILE holds mutations, each as
  == name
  -- path
  <old text>
  ++
  <new text>
(several -- blocks per mutation). Reports which checks see each, and whether
the repository's own tests do. Usage: mut.py FILE [-only NAME] C24 C25 ..."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
spec = open(args.pop(0)).read()
only = None
if args and args[0] == "-only":
    only = args[1]; args = args[2:]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
gosym = "/tmp/gosym"
for m in re.split(r"^== ", spec, flags=re.M)[1:]:
    name, body = m.split("\n", 1)
    name = name.strip()
    checks = args
    if "@" in name:
        name, cs = name.split("@"); name = name.strip()
        checks = args or cs.split()
    if only and only != name: continue
    d = "/tmp/mut-" + str(os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/verif")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", V + "/harness", d + "/verif/"])
    p = d + "/verif/harness/go.mod"
    s = open(p).read().replace("=> /repo", "=> " + d + "/repo"); open(p, "w").write(s)
    shutil.copy(V + "/known_findings.txt", d + "/verif/") if os.path.exists(V + "/known_findings.txt") else None
    ok = True
    for blk in re.split(r"^-- ", body, flags=re.M)[1:]:
        path, rest = blk.split("\n", 1)
        old, new = re.split(r"^\+\+\n", rest, flags=re.M)
        f = d + "/repo/" + path.strip()
        s = open(f).read()
        old = old.rstrip("\n"); new = new.rstrip("\n")
        if s.count(old) != 1:
            print(name, ": old text found", s.count(old), "times:", old[:50]); ok = False; break
        open(f, "w").write(s.replace(old, new))
    if not ok: continue
    t = subprocess.run(["go", "test", "./..."], cwd=d + "/repo", env=env, capture_output=True, text=True)
    res = ["tests " + ("pass" if t.returncode == 0 else "FAIL" )]
    if t.returncode and ("build failed" in t.stdout or "vet:" in t.stdout or "build failed" in t.stderr):
        res = ["DOES NOT BUILD " + (t.stdout + t.stderr)[:300]]
    for c in checks:
        r = subprocess.run([gosym, "-verif", d + "/verif", "-check", c.lower()], env=env, capture_output=True, text=True)
        o = "quiet" if r.returncode == 0 else ("CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "exit %d" % r.returncode)
        w = re.search(r"counterexample in (.*)", r.stdout + r.stderr)
        res.append(c + " " + o + (" (" + w.group(1)[:80] + ")" if w else ""))
    print(name, ":", "; ".join(res), flush=True)
    shutil.rmtree(d, ignore_errors=True)
