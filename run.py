#!/usr/bin/env python3
"""Check driver:  run.py <property id> [quick|thorough]

Instruments /repo's current working tree into a scratch module, builds the
property's harness against it, explores, confirms any violation by replaying it
in fresh processes, and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin"

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    if os.path.isdir(GO):
        e["PATH"] = GO + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

def die(msg):
    print("ERROR:", msg)
    sys.exit(2)

def sh(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout

def known_findings(pid):
    """known: property=<id> key=<key> <text>   (fixed: lines suppress nothing)"""
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cores = os.cpu_count() or 4
    hdir = os.path.join(VERIF, "harness", pid.lower())
    c = json.load(open(os.path.join(hdir, "prop.json")))["run"]
    e = env()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    e["GOTMPDIR"] = work
    try:
        instr = os.path.join(work, "instr")
        sh(["go", "build", "-buildvcs=false", "-o", instr, "."], os.path.join(VERIF, "tools", "instrument"), e, "build of instrumenter")
        mod = os.path.join(work, "mod")
        info = sh([instr, "-src", REPO, "-out", mod, "-lib", os.path.join(VERIF, "lib"),
                   "-hooks", ",".join(c.get("hooks", []))], REPO, e, "instrumentation").strip().splitlines()[-1]
        module = re.search(r"^module\s+(\S+)", open(os.path.join(mod, "go.mod")).read(), re.M).group(1)
        # third-party modules with some packages replaced by stand-ins (a fake terminal)
        for n, (third, files) in enumerate(sorted(c.get("third", {}).items())):
            src = sh(["go", "list", "-m", "-f", "{{.Dir}}", third], mod, e, "lookup of %s" % third).strip()
            dst = os.path.join(work, "third%d" % n)
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*_test.go"), copy_function=shutil.copyfile)
            for root, _, _ in os.walk(dst):
                os.chmod(root, 0o755)
            for target, stand_in in files.items():
                t = os.path.join(dst, target)
                for f in ([os.path.join(t, x) for x in os.listdir(t)] if os.path.isdir(t) else [t]):
                    os.remove(f)
                shutil.copyfile(os.path.join(hdir, stand_in), os.path.join(t, "standin.go") if os.path.isdir(t) else t)
            sh(["go", "mod", "edit", "-replace", "%s=%s" % (third, dst)], mod, e, "replacement of %s" % third)
        hd = os.path.join(mod, "zzverif", "h")
        os.makedirs(hd)
        for f in os.listdir(hdir):
            if f.endswith(".go"):
                s = open(os.path.join(hdir, f)).read().replace('"MODULE/', '"%s/' % module)
                open(os.path.join(hd, f), "w").write(s)
        bins = {}
        modes = c.get("modes", ["plain"])
        for m in modes:
            bins[m] = os.path.join(work, "h_" + m)
            sh(["go", "build", "-buildvcs=false", "-trimpath"] + (["-race"] if m == "race" else []) + ["-o", bins[m], "./zzverif/h"], mod, e, "build of harness (%s)" % m)
        build_s = time.time() - t0
        secs = c.get("secs", {}).get(tier, 60 if tier == "quick" else 600)
        # quick: the quick bounds, then the thorough ones for a limited time (scenarios deepen
        # iteratively, so this explores a superset); thorough: the thorough bounds, then one
        # preemption and one environment deviation more with the time that is left
        phases = [("quick", secs), ("thorough", c.get("secs", {}).get("more", 30))] if tier == "quick" else [("thorough", secs), ("deep", secs)]
        knowns = known_findings(pid)
        stats, viols, known_seen = [], [], set()
        e["GORACE"] = "halt_on_error=0 atexit_sleep_ms=0"
        t1 = time.time()
        for np, (ph, budget) in enumerate(phases):
            if np and tier == "thorough":
                budget = secs - (time.time() - t1)
                if budget < 20:
                    break
            for m in modes:
                procs = []
                for i in range(cores):
                    out = os.path.join(work, "out_%s_%d.json" % (m, i))
                    err = open(os.path.join(work, "err_%s_%d.txt" % (m, i)), "w")
                    procs.append((out, err, subprocess.Popen(
                        [bins[m], "-tier", ph, "-shard", str(i), "-n", str(cores), "-secs", str(budget / len(modes)), "-out", out,
                         "-known", "\x1f".join(k for k, _ in knowns), "-hang", str(c.get("hang", 100))] + (["-after"] if np else []),
                        env=e, stdout=err, stderr=subprocess.STDOUT, cwd=work)))
                for i, (out, err, p) in enumerate(procs):
                    rc = p.wait()
                    err.close()
                    if not os.path.exists(out):
                        tail = open(err.name).read()[-3000:]
                        # a crash of the whole process (fatal error in the code under test) is a
                        # violation if it is a Go runtime fatal error, otherwise a tool error
                        m2 = re.search(r"^fatal error: (.*)$", open(err.name).read(), re.M)
                        if m2 and "out of memory" not in m2.group(1):
                            viols.append(dict(scenario="?", kind="fatal", msg="fatal error: " + m2.group(1) + "\n" + tail, mode=m, unreplayable=True))
                            continue
                        die("worker %s/%d exited %d without a report:\n%s" % (m, i, rc, tail))
                    r = json.load(open(out))
                    stats += [dict(s, shard=i, mode=m, phase=ph) for s in (r["stats"] or [])]
                    known_seen |= set(r.get("known") or [])
                    for v in (r["violations"] or []):
                        v["_err"] = err.name
                        viols.append(v)
                if viols:
                    break
            if viols:
                break
        # confirm
        confirmed = None
        unconfirmed = []
        viols.sort(key=lambda v: (v.get("deviations", 0), len(v.get("choices") or []), v.get("case", 0)))
        for v in viols[:4]:
            if v.get("unreplayable"):
                confirmed = v
                break
            ok = True
            rp = os.path.join(work, "replay.json")
            json.dump({k: x for k, x in v.items() if not k.startswith("_")}, open(rp, "w"))
            for k in range(1 if v["kind"] == "hang" else 5):
                out = os.path.join(work, "replay_out.json")
                if os.path.exists(out):
                    os.remove(out)
                p = subprocess.run([bins[v["mode"]], "-replay", rp, "-out", out, "-tier", v.get("tier") or tier, "-hang", "60",
                                    "-known", "\x1f".join(k for k, _ in knowns)],
                                   env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work)
                if not os.path.exists(out) or not (json.load(open(out))["violations"] or []):
                    ok = False
                    break
                v["_replay_log"] = p.stdout[-6000:]
            if ok:
                confirmed = v
                break
            unconfirmed.append(v)
        # aggregate per scenario
        agg = {}
        for s in stats:
            a = agg.setdefault((s["name"], s["mode"], s["phase"]), dict(name=s["name"], mode=s["mode"], bounds=s["phase"], kind=s["kind"], executions=0, steps=0, states=0,
                               choice_points=0, truncated=0, complete=True, bound_completed=99, max_case_s=0, params=s.get("params", ""), outcomes={}))
            for k in ("executions", "steps", "choice_points", "truncated"):
                a[k] += s[k]
            a["complete"] = a["complete"] and s["complete"]
            a["max_case_s"] = round(max(a["max_case_s"], s.get("max_case_s", 0)), 3)
            a["bound_completed"] = min(a["bound_completed"], s["bound_completed"])
            for o, n in (s.get("outcomes") or {}).items():
                a["outcomes"][o] = a["outcomes"].get(o, 0) + n
            if s["kind"] == "enumeration":
                a["states"] += s["states"]
        for a in agg.values():
            if a["kind"] == "schedules":
                a["states"] = len(a["outcomes"])
            a["distinct_outcomes"] = len(a["outcomes"])
            a["outcomes"] = dict(sorted(a["outcomes"].items(), key=lambda kv: -kv[1])[:12])
        tot = lambda k: sum(a[k] for a in agg.values())
        exhaustive = all(a["complete"] for a in agg.values() if a["bounds"] == phases[0][0]) and not viols
        deeper = [a for a in agg.values() if a["bounds"] != phases[0][0]]
        dtext = "; deeper bounds %s" % ("none left" if not deeper else "exhausted" if all(a["complete"] for a in deeper) else "cut by time")
        samples = [dict(scenario=a["name"], bounds=a["bounds"], outcomes=a["outcomes"]) for a in agg.values()][:12]
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=max(1, tot("states")), transitions=max(1, tot("steps") + tot("executions")),
                                executions=tot("executions"), choice_points=tot("choice_points"), truncated=tot("truncated"),
                                traces_validated_against_impl=tot("executions"),
                                exhaustive=exhaustive, deeper_bounds=dtext.replace("; deeper bounds ", ""), samples=samples,
                                scenarios=sorted(({k: v for k, v in a.items() if k != "outcomes"} for a in agg.values()), key=lambda a: (a["name"], a["bounds"], a["mode"])),
                                instrumentation=info, build_s=round(build_s, 1)),
                  assumptions=c.get("assumptions", []) + [
                      "every execution runs the repository's own code, rewritten at check time only at its synchronisation, clock, randomness and map-iteration operations",
                      "sequentially consistent interleavings at synchronisation operations; unsynchronised accesses are reported as data races by the race-detector build where it is used",
                      "bounds as listed per scenario"],
                  wall_s=round(time.time() - t0, 2), violations=0)
        if unconfirmed:
            ev["coverage"]["unconfirmed"] = [dict(scenario=v["scenario"], kind=v["kind"], msg=v["msg"][:500]) for v in unconfirmed]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k, text in knowns:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        rc = 0
        if confirmed:
            rp = os.path.join(VERIF, "evidence", "%s.replay.json" % pid)
            log = confirmed.get("_replay_log", "")
            art = {k: x for k, x in confirmed.items() if not k.startswith("_")}
            art["property"] = pid
            art["how"] = "python3 /verif/run.py replays it: build as in run.py, then h_%s -replay <this file>" % confirmed["mode"]
            if confirmed["kind"] == "race":
                mm = re.search(r"WARNING: DATA RACE.*?==================", log, re.S)
                art["race_report"] = (mm.group(0) if mm else log)[:5000]
            json.dump(art, open(rp, "w"), indent=1)
            ev["violations"] = 1
            ev["coverage"]["exhaustive"] = False
            print("property %s violated in %s (%s, %s build): %s" % (pid, confirmed["scenario"], confirmed["kind"], confirmed["mode"], confirmed["msg"][:1500]))
            if "race_report" in art:
                print(art["race_report"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %s executions, %s states, %s choice points, exhaustive=%s%s, %.1fs (build %.1fs)%s" % (
            pid, tier, tot("executions"), ev["coverage"]["states"], tot("choice_points"), exhaustive, dtext, time.time() - t0, build_s,
            ", UNCONFIRMED %d: %s" % (len(unconfirmed), unconfirmed[0]["msg"][:300]) if unconfirmed else ""))
        sys.exit(rc)
    finally:
        shutil.rmtree(work, ignore_errors=True)

main()
