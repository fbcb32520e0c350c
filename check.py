#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE               re-run one recorded execution, verbosely

Builds amino out of tree (instrumented) from /repo, builds the property's
harness, explores it exhaustively, writes evidence/<PROPERTY>.json, prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held, 1: violated, 2: error.
"""
import json, os, re, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
CFG = json.load(open(os.path.join(VERIF, "checks.json")))
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, LANG="C", LC_ALL="C", TZ="UTC", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", SDL_VIDEODRIVER="dummy")


def build(variant, targets):
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.check_call([sys.executable, os.path.join(VERIF, "fw/mkninja.py"), bdir, variant], env=ENV)
        cmd = ["ninja", "-f", os.path.join(bdir, "build.ninja")] + [os.path.join(bdir, t) for t in targets]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-8000:])
            print("ERROR: build failed")
            sys.exit(2)
    return bdir


def known_findings(prop):
    """lines 'known: property=<id> key=<key> <what>' (fixed: lines suppress nothing)"""
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    if sys.argv[1] == "--build-all":
        for c in CFG.values():
            for u in c["units"]:
                build(u.get("variant", "asan"), [u["target"]])
        return 0
    if sys.argv[1] == "--replay":
        f = sys.argv[2]
        prop = [l.split()[1] for l in open(f) if l.startswith("property ")][0]
        unit = [l.split()[1] for l in open(f) if l.startswith("unit ")]
        units = [u for u in CFG[prop]["units"] if not unit or u["target"] == unit[0]]
        u = units[0]
        bdir = build(u.get("variant", "asan"), [u["target"]])
        os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
        return subprocess.call(cmdline(u, bdir) + ["--replay", f], env=dict(ENV, MC_SCRATCH="/tmp", VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    env = dict(ENV, VERIF_TIER=tier)
    seed = int(env.get("VERIF_SEED", "1") or "1")
    env["VERIF_SEED"] = str(seed)
    t0 = time.time()
    cfg = CFG[prop]
    kf = known_findings(prop)
    rundir = os.path.join(BUILD, "run", prop)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    scratch = os.path.join(rundir, "scratch")
    os.makedirs(scratch)
    env["MC_SCRATCH"] = scratch
    res, violation, replay = [], None, None
    reached = {}
    for i, u in enumerate(cfg["units"]):
        if u.get("thorough_only") and tier != "thorough":
            continue
        bdir = build(u.get("variant", "asan"), [u["target"]])
        left = None
        j = None
        for attempt in range(2):
            d = os.path.join(rundir, "u%d" % i)
            os.makedirs(d, exist_ok=True)
            js = os.path.join(d, "out.json")
            cmd = cmdline(u, bdir) + ["--json", js, "--dir", d]
            if kf:
                cmd += ["--known", ",".join(kf)]
            if tier == "quick":
                cmd += ["--limit", str(u.get("limit", 500))]
            r = subprocess.run(cmd, env=env)
            if not os.path.exists(js):
                print("ERROR: harness %s ended with %d and no result" % (u["target"], r.returncode))
                sys.exit(2)
            j = json.load(open(js))
            j["target"] = u["target"]
            if j["rc"] != 4:
                break
        res.append(j)
        for k in j.get("known", []):
            reached.setdefault(k["key"], k["what"])
        if j["rc"] in (1, 4) and not violation:
            # rc 4 twice: a crash seen in two independent runs, though not in isolation
            if j["rc"] == 1 or attempt == 1:
                violation = j["violation"] or "unspecified"
                replay = os.path.join(VERIF, "build", "run", prop + ".replay")
                txt = open(j["replay"], errors="replace").read() if j.get("replay") and os.path.exists(j["replay"]) else ""
                replay_txt = "unit %s\n" % u["target"] + txt
                os.makedirs(os.path.dirname(replay), exist_ok=True)
                open(replay, "w").write(replay_txt)
                break
    ex = sum(j["executions"] for j in res)
    st = sum(j["states"] for j in res)
    steps = sum(j["steps"] for j in res)
    non = sum(j["nontrivial"] for j in res)
    exhaustive = not any(j["timeout"] for j in res) and violation is None
    cov = {
        "exhaustive": exhaustive,
        "rule": cfg["rule"],
        "bounds": cfg.get("bounds", {}).get(tier, cfg.get("bounds_text", "")),
        "samples": sum((j["samples"] for j in res), [])[:12] or ["none"],
        "spaces": {j["target"]: j["spaces"] for j in res},
        "choice_points": sum(j["choices"] for j in res),
        "workers": max(j["workers"] for j in res),
    }
    if cfg["level"] == "model_checking":
        cov.update(states=st, transitions=steps, traces_validated_against_impl=ex)
    else:
        cov.update(evaluations=steps, distinct_nontrivial=non, executions=ex)
    if any(j.get("table_full") for j in res):
        cov["state_count_note"] = "state table filled up; distinct counts are lower bounds"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 3),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for j in res:
        for s, c in j["spaces"].items():
            print("  %-28s executions=%-10d steps=%d" % (s, c["executions"], c["steps"]))
    print("%s %s: executions=%d steps=%d states=%d nontrivial=%d exhaustive=%s %.1fs" %
          (prop, tier, ex, steps, st, non, exhaustive, time.time() - t0))
    for k, what in reached.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, kf.get(k, what)))
    shutil.rmtree(scratch, ignore_errors=True)
    if violation:
        print("  " + violation.replace("\n", "\n  ")[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def cmdline(u, bdir):
    if "cmd" in u:
        return [c.replace("@B@", bdir).replace("@V@", VERIF) for c in u["cmd"]]
    return [os.path.join(bdir, u["target"])]


sys.exit(main())
