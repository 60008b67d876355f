#!/usr/bin/env python3
"""plant.py <id>...: validates planted bugs seeded/<id> in a scratch copy of /repo and runs the property's check on it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env["PATH"]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def tests(d):
    p = subprocess.run("go test -count=1 -json $(go list ./... | grep -v /e2e | grep -v emerge/swarm) 2>/dev/null", shell=True, cwd=d, env=env, stdout=subprocess.PIPE, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try:
            j = json.loads(l)
        except Exception:
            continue
        if j.get("Action") == "pass" and "Test" in j:
            ok.add(j["Package"] + "::" + j["Test"]); ok.add(j["Package"] + "/" + j["Test"]); ok.add(j["Package"] + "." + j["Test"]); ok.add(j["Package"] + ":" + j["Test"]); ok.add(j["Package"] + " " + j["Test"])
    return ok

def norm(s): return s

base = None
for bid in sys.argv[1:]:
    b = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(b, "meta.json")))
    d = tempfile.mkdtemp(prefix="plant-")
    w = os.path.join(d, "repo")
    shutil.copytree("/repo", w, symlinks=True)
    demo = os.path.join(d, "demo")
    shutil.copytree(b, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(demo, f))
    run = lambda c, **k: subprocess.run(c, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    p = run(["bash", os.path.join(demo, "demo.sh")])
    res = ["demo-clean=%d" % p.returncode]
    if p.returncode: print(p.stdout[-2000:])
    p = run(["git", "apply", os.path.join(b, "patch.diff")])
    res.append("apply=%d" % p.returncode)
    p = run(["go", "build", "./..."])
    res.append("build=%d" % p.returncode)
    if p.returncode: print(p.stdout[-2000:])
    got = tests(w)
    missing = [t for t in stable if t not in got]
    res.append("tests-missing=%d %s" % (len(missing), missing[:3]))
    p = run(["bash", os.path.join(demo, "demo.sh")])
    res.append("demo-bug=%d" % p.returncode)
    p = subprocess.run([sys.executable, os.path.join(V, "run.py"), meta["property"], "quick"], env=dict(env, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    caught = p.returncode == 1 and "VIOLATION property=%s" % meta["property"] in p.stdout
    res.append("check=%d %s" % (p.returncode, "CAUGHT" if caught else "MISSED"))
    print(bid, meta["property"], " ".join(res))
    print("    ", p.stdout.strip().splitlines()[0][:300] if p.stdout.strip() else "")
    shutil.rmtree(d)
