#!/usr/bin/env python3
"""seed.py FILE : makes seeded bugs from FILE (format of mut.py, with '## key value'
lines for pkg, property, needs and breaks, and the demonstration after '>>').
seed.py -check [ID...] : validates those in /verif/seeded and runs their checks."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# Runs demo_test.go as part of package %s of the current tree.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run 'TestDemo' ./%s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", **k)
def make(path):
    for m in re.split(r"^== ", open(path).read(), flags=re.M)[1:]:
        name, body = m.split("\n", 1); name = name.strip()
        body, demo = re.split(r"^>>\n", body, flags=re.M)
        keys = dict(re.findall(r"^## (\w+) (.*)$", body, flags=re.M))
        d = "/tmp/seed-%d" % os.getpid()
        shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", d])
        bad = False
        for blk in re.split(r"^-- ", body, flags=re.M)[1:]:
            f, rest = blk.split("\n", 1); old, new = re.split(r"^\+\+\n", rest, flags=re.M)
            f = d + "/" + f.strip(); s = open(f).read(); old = old.rstrip("\n"); new = new.rstrip("\n")
            if s.count(old) != 1: print(name, "old text found", s.count(old), "times", old[:60]); bad = True; break
            open(f, "w").write(s.replace(old, new))
        if bad: continue
        run(["gofmt", "-w", "arfs", "tarfs", "erofs", "memfs"], d)
        diff = run(["git", "diff"], d).stdout
        # the removed lines must be of the original repository
        orig = 0
        for f in re.findall(r"^--- a/(.*)$", diff, flags=re.M):
            bl = run(["git", "blame", "-s", "HEAD", "--", f], d).stdout.split("\n")
            h = run(["git", "diff", "-U0", "--", f], d).stdout
            for a, n in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", h, flags=re.M):
                for i in range(int(a), int(a) + (1 if n == "" else int(n))):
                    if "351df11" in bl[i - 1][:12]: orig += 1
        if not orig: print(name, "changes no original line"); continue
        o = S + "/" + name; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo_test.go", "w").write(demo)
        open(o + "/demo.sh", "w").write(DEMO % (keys["pkg"], keys["pkg"], keys["pkg"]))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": keys["property"], "needs": keys["needs"], "what_it_breaks": keys["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        check([name])
def check(ids):
    for name in ids or sorted(os.listdir(S)):
        o = S + "/" + name
        prop = json.load(open(o + "/meta.json"))["property"]
        d = "/tmp/seed-%d" % os.getpid()
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/verif"); subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["cp", "-a", V + "/harness", d + "/verif/"]); shutil.copy(V + "/known_findings.txt", d + "/verif/")
        g = d + "/verif/harness/go.mod"; s = open(g).read().replace("=> /repo", "=> " + d + "/repo"); open(g, "w").write(s)
        r = d + "/repo"; out = []
        q = run(["bash", o + "/demo.sh"], r); out.append("clean demo %d" % q.returncode)
        if q.returncode: out.append((q.stdout + q.stderr)[-500:])
        q = run(["git", "apply", o + "/patch.diff"], r)
        if q.returncode: print(name, "patch does not apply", q.stderr); continue
        q = run(["go", "build", "./..."], r); out.append("build %d" % q.returncode)
        if q.returncode: out.append(q.stderr[:500])
        q = run(["go", "test", "-vet=off", "-count=1", "./..."], r); out.append("tests %d" % q.returncode)
        q = run(["bash", o + "/demo.sh"], r); out.append("bug demo %d" % q.returncode)
        if "DEMO" not in q.stdout: out.append("?? " + (q.stdout + q.stderr)[-300:])
        q = run(["/tmp/gosym", "-v", "-verif", d + "/verif", "-check", prop.lower()], r)
        w = re.search(r"counterexample in (.*)", q.stdout + q.stderr)
        if q.returncode != 1: open("/tmp/seed-miss-" + name, "w").write(q.stdout + q.stderr)
        out.append(prop + (" CAUGHT " if q.returncode == 1 and "VIOLATION" in q.stdout else " missed (%d) " % q.returncode) + (w.group(1)[:90] if w else ""))
        print(name, "|", "; ".join(out), flush=True)
        shutil.rmtree(d)
if sys.argv[1] == "-check": check(sys.argv[2:])
else: make(sys.argv[1])
