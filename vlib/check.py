#!/usr/bin/env python3
"""Run the check of one property: seeded search over simulated executions.

  python3 vlib/check.py P05 quick|thorough [--time S]

Builds the simulators the property needs from /repo's working tree, runs them in
8 processes over disjoint runs of one seed, writes evidence/<id>.json, and exits
0 (held on everything explored) or 1 (VIOLATION line printed).  2: no answer.
"""
import json, os, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks

VERIF = build.VERIF
NPROC = 8

def known_findings(prop):
    """(class, text) of the recorded, unrepaired defects of this property."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                f = dict(w.split("=", 1) for w in l.split()[1:3])
                if prop in f["property"].split(","):
                    out.append((f["class"], l.split(None, 3)[3].strip()))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = checks.CHECKS[prop]
    budget = c.get("quick_s", 32) if tier == "quick" else c.get("thorough_s", 600)
    if "--time" in sys.argv:
        budget = float(sys.argv[sys.argv.index("--time") + 1])
    t0 = time.time()
    worlds = []
    for r in c["runs"]:
        if r["world"] not in worlds:
            worlds.append(r["world"])
    exes = build.build(worlds)
    if not exes:
        print("build failed", file=sys.stderr)
        return 2
    tbuild = time.time() - t0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings(prop)
    with tempfile.TemporaryDirectory(prefix="plxsim") as td:
        kf = os.path.join(td, "known")
        open(kf, "w").write("".join(k + "\n" for k, _ in known))
        slots = []
        tot = sum(r.get("w", 1) for r in c["runs"])
        if len(c["runs"]) > NPROC:
            raise SystemExit("too many runs")
        # largest remainder: every run spec gets at least one process
        n = [max(1, int(NPROC * r.get("w", 1) / tot)) for r in c["runs"]]
        while sum(n) < NPROC:
            i = max(range(len(n)), key=lambda i: c["runs"][i].get("w", 1) / n[i]); n[i] += 1
        while sum(n) > NPROC:
            i = max(range(len(n)), key=lambda i: (n[i] > 1, n[i])); n[i] -= 1
        procs = []
        for i, r in enumerate(c["runs"]):
            for j in range(n[i]):
                o = os.path.join(td, "o%d_%d" % (i, j))
                cmd = [exes[r["world"]], "--prop", prop, "--profile", r["profile"], "--seed", str(seed),
                       "--start", str(j), "--stride", str(n[i]), "--time", str(budget), "--shrink", "20",
                       "--known", kf, "--replaydir", rdir, "--out", o + ".json", "--covout", o + ".cov"]
                if r.get("need"):
                    cmd += ["--need", r["need"]]
                log = open(o + ".log", "wb")
                procs.append((r, o, subprocess.Popen(cmd, stdout=log, stderr=log, cwd=td)))
        for r, o, p in procs:
            try:
                p.wait(timeout=budget + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        agg, cov, hist, known_hits, viol, errs = {}, set(), set(), {}, [], []
        per = {}
        cnt = {}
        for r, o, p in procs:
            try:
                d = json.load(open(o + ".json"))
            except Exception:
                errs.append("%s/%s: exit %s: %s" % (r["world"], r["profile"], p.returncode, open(o + ".log", errors="replace").read()[-500:]))
                continue
            for k in ("runs", "ok", "inconclusive", "events", "simsec", "det", "det_bad", "unrepro"):
                agg[k] = agg.get(k, 0) + d[k]
            k = r["world"] + "/" + r["profile"]
            per[k] = per.get(k, 0) + d["runs"]
            for k, v in d["counters"].items():
                cnt[k] = cnt.get(k, 0) + v
            for k, v in d["known"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            for nm, st in ((".cov", cov), (".cov.hist", hist)):
                if os.path.exists(o + nm):
                    b = open(o + nm, "rb").read()
                    st.update(struct.unpack("%dQ" % (len(b) // 8), b))
            if d["det_bad"]:
                errs.append("not deterministic: %s/%s runs %s" % (r["world"], r["profile"], d["det_seeds"]))
            if d["unrepro"] and not d["violation"] and "hang" not in d["unrepro_msg"]:
                errs.append("not reproducible: %s/%s %s" % (r["world"], r["profile"], d["unrepro_msg"]))
            if d["violation"]:
                viol.append((r, d))
        # every reported violation must replay in a fresh process
        good = []
        for r, d in viol:
            q = subprocess.run([exes[r["world"]], "--prop", prop, "--replay", d["violation"]],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=td)
            if q.returncode == 1 and ("class=" + d["class"]).encode() in q.stdout:
                good.append((r, d))
            else:
                errs.append("does not replay: " + d["message"])
        r0 = c["runs"][0]
        smp = subprocess.run([exes[r0["world"]], "--prop", prop, "--profile", r0["profile"], "--seed", str(seed), "--one", "3"],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=td).stdout.decode(errors="replace")
    wall = time.time() - t0
    samples = [{"seed": seed, "run": 3, "world": r0["world"], "profile": r0["profile"],
                "history": [l[:300] for l in smp.splitlines()[:60]]}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
          "coverage": {
              "evaluations": agg.get("runs", 0),
              "distinct_nontrivial": len(hist),
              "rule": c["rule"] + "  Distinct: by a hash of the run's complete event history.",
              "samples": samples,
              "runs_by_workload": per,
              "runs_held": agg.get("ok", 0),
              "runs_inconclusive": agg.get("inconclusive", 0),
              "runs_per_hour": int(agg.get("runs", 0) / max(budget, 1) * 3600),
              "simulated_time_s": round(agg.get("simsec", 0), 3),
              "events": agg.get("events", 0),
              "faults_injected": {k: v for k, v in sorted(cnt.items()) if k.startswith("fault.")},
              "environment": {k: v for k, v in sorted(cnt.items()) if k.startswith("env.") or k.startswith("sim.")},
              "probes": {k: v for k, v in sorted(cnt.items()) if k.startswith("probe.") or k.startswith("inconclusive.")},
              "distinct_states": len(cov),
              "distinct_states_measure": c.get("measure", "hash of the abstract state of the system after each atomic action"),
              "same_seed_twice_runs": agg.get("det", 0),
              "same_seed_twice_different": agg.get("det_bad", 0),
              "real_code": c["real"],
              "stubs": c["stubs"],
          },
          "assumptions": c.get("assumptions", []),
          "build_s": round(tbuild, 1),
          "wall_s": round(wall, 1),
          "violations": len(good)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, t in known:
        print("KNOWN-FINDING: property=%s %s: %s (met in %d runs)" % (prop, k, t, known_hits.get(k, 0)))
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %d states, %d inconclusive, %.0f s simulated, build %.0f s, wall %.0f s" % (
        prop, tier, seed, agg.get("runs", 0), len(hist), len(cov), agg.get("inconclusive", 0), agg.get("simsec", 0), tbuild, wall))
    for e in errs:
        print("ERROR " + e)
    if good:
        r, d = good[0]
        print("  %s: %s" % (d["class"], d["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, d["violation"]))
        return 1
    if errs:
        return 2
    if not agg.get("ok"):
        print("ERROR no run reached its end")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
