#!/usr/bin/env python3
"""Decides one property: builds the harness binaries from /repo's working tree, explores seeded simulated executions,
writes evidence/<id>.json.  Exit 0 held, 1 violation (VIOLATION line), 2 the check itself could not work."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, claims

def known(prop):
    try:
        k = json.load(open(VERIF + "/known_findings.json"))
    except FileNotFoundError:
        return []
    return [f for f in k.get("findings", []) if f["property"] == prop]

def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    c = claims.CLAIMS[prop]
    if build.build([h for h, *_ in c["harness"]]) != 0:
        print("build of the harness failed", file=sys.stderr)
        return 2
    t_build = time.time() - t0
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rep = VERIF + "/replays"
    os.makedirs(rep, exist_ok=True)
    jobs = min(8, os.cpu_count() or 1)
    cov, viol, rc_all, tot_wall = {"parts": []}, 0, 0, 0.0
    agg = {}
    samples = []
    kf = known(prop)
    hits = {}
    for h, quick_n, quick_s, deep_s in c["harness"]:
        out = "%s/build/%s-%s.json" % (VERIF, prop, h)
        if os.path.exists(out):
            os.unlink(out)
        wall = deep_s if thorough else quick_s
        cmd = [build.B + "/bin/" + h, "explore", "--prop", prop, "--seed", str(seed), "--runs", str(100000000 if thorough else quick_n), "--wall", str(wall),
               "--jobs", str(jobs), "--out", out, "--replays", rep]
        for f in kf:
            cmd += ["--known", f["signature"]]
        r = subprocess.run(cmd, cwd=VERIF, stdout=subprocess.PIPE, text=True)
        sys.stdout.write("\n".join(l for l in r.stdout.splitlines() if not l.startswith("known ")) + "\n")
        sys.stdout.flush()
        for l in r.stdout.splitlines():
            if l.startswith("known "):
                s, n, d = l[6:].split("\t", 2)
                hits[s] = d
            if l.startswith("VIOLATION property="):
                p = l.split("replay=", 1)[1].strip()
                if os.path.exists(p):
                    t = open(p).read().split("\n", 1)
                    open(p, "w").write(t[0] + "\nharness " + h + "\n" + t[1])
        if r.returncode not in (0, 1):
            print("harness %s ended with %d" % (h, r.returncode), file=sys.stderr)
            rc_all = rc_all or 2
            continue
        if r.returncode == 1:
            rc_all = 1
        j = json.load(open(out))
        for k in ("runs", "plain_runs", "nontrivial", "distinct_interleavings", "distinct_nontrivial", "distinct_states", "events", "callbacks",
                  "messages", "sim_seconds", "wall", "lost", "event_capped", "determinism_reruns_ok", "determinism_reruns_bad"):
            agg[k] = agg.get(k, 0) + j.get(k, 0)
        for k in ("fault_events", "fault_runs", "probes", "scenarios", "signatures", "known"):
            for a, b in j.get(k, {}).items():
                agg.setdefault(k, {})
                agg[k][a] = agg[k].get(a, 0) + b
        agg.setdefault("real_components", []).append(j["real"])
        agg.setdefault("stub_components", []).append(j["stub"])
        samples += [dict(s, harness=h) for s in j["samples"][:2]]
        viol += len(j.get("violations", []))
    for f in kf:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], " [%s]" % hits[f["signature"]] if f["signature"] in hits else ""))
    w = max(agg.get("wall", 0), 1e-9)
    cov = {
        "evaluations": agg.get("runs", 0),
        "distinct_nontrivial": agg.get("distinct_nontrivial", 0),
        "rule": "one evaluation is one simulated execution derived from (seed, run index): configuration, workload, schedule and faults. "
                "Distinct: different hash of the order of (node, callback) executions. Non-trivial: " + c["nontrivial"],
        "samples": samples,
        "fault_free_runs": agg.get("plain_runs", 0),
        "fault_injecting_runs": agg.get("runs", 0) - agg.get("plain_runs", 0),
        "nontrivial_runs": agg.get("nontrivial", 0),
        "runs_per_hour": round(agg.get("runs", 0) / w * 3600),
        "seeds_per_hour": round(agg.get("runs", 0) / w * 3600),
        "simulated_seconds": round(agg.get("sim_seconds", 0), 1),
        "simulator_events": agg.get("events", 0),
        "callbacks_executed": agg.get("callbacks", 0),
        "messages": agg.get("messages", 0),
        "faults_injected": agg.get("fault_events", {}),
        "runs_with_fault_kind": agg.get("fault_runs", {}),
        "distinct_interleavings": agg.get("distinct_interleavings", 0),
        "interleaving_measure": "hash over the sequence of callback executions, transform arrivals and publications of the nodes in a run",
        "distinct_abstract_states": agg.get("distinct_states", 0),
        "probes": agg.get("probes", {}),
        "scenarios": agg.get("scenarios", {}),
        "determinism_reruns_identical": agg.get("determinism_reruns_ok", 0),
        "determinism_reruns_different": agg.get("determinism_reruns_bad", 0),
        "runs_lost": agg.get("lost", 0),
        "runs_cut_at_event_limit": agg.get("event_capped", 0),
        "known_findings_hit": agg.get("known", {}),
        "real_components": agg.get("real_components", []),
        "stub_components": agg.get("stub_components", []),
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": claims.COMMON_ASSUMPTIONS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    if rc_all != 2 or agg:
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    return rc_all

if __name__ == "__main__":
    sys.exit(main())
