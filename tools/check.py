#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property by simulation.

Builds the simulator against the working tree of /repo, explores seeded runs on
every core, confirms and reports what it finds, and writes evidence/ID.json.
"""
import json, os, subprocess, sys, time, shutil, struct

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        f = dict(x.split("=", 1) for x in line.split()[1:3])
        if f.get("property") == prop:
            out.append((f["signature"], " ".join(line.split()[3:])))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    plan = json.load(open(os.path.join(ROOT, "tools/plan.json")))
    p = plan["properties"][prop]
    secs = p.get("thorough_secs", 600) if thorough else p.get("secs", 30)
    if "VSIM_SECS" in os.environ:
        secs = float(os.environ["VSIM_SECS"])
    # the compiler crates are simulated by a binary of their own
    second = p.get("binary") == "vsim2"
    global BIN
    BIN = os.path.join(ROOT, "build/target/debug", "vsim2" if second else "vsim")
    r = subprocess.run(["bash", os.path.join(ROOT, "tools/build2.sh" if second else "tools/build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-3000:])
        sys.stdout.write(r.stderr[-6000:])
        print("check: the build failed")
        return 2
    built = time.time() - t0
    known = known_findings(prop)
    work = os.path.join(ROOT, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    n = max(1, os.cpu_count() or 1)
    scen = ",".join("%s=%d" % kv for kv in p["scenarios"].items())
    procs = []
    for i in range(n):
        out = os.path.join(work, "w%d.json" % i)
        cmd = [BIN, "worker", "--prop", prop, "--scen", scen, "--seed", str(seed), "--idx", str(i), "--n", str(n),
               "--secs", str(secs), "--out", out]
        if thorough:
            cmd.append("--thorough")
        if known:
            cmd += ["--known", ",".join(k for k, _ in known)]
        env = dict(os.environ, VSIM_CPU=str(i))
        procs.append((out, subprocess.Popen(cmd, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)))
    deadline = time.time() + secs + (240 if thorough else 150)
    for _, pr in procs:
        try:
            pr.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
    res, lost = [], 0
    for out, pr in procs:
        if os.path.exists(out):
            res.append(json.load(open(out)))
        else:
            lost += 1
            sys.stdout.write(open(out + ".log").read()[-2000:])
    orders = set()
    for out, _ in procs:
        if os.path.exists(out + ".orders"):
            b = open(out + ".orders", "rb").read()
            orders.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    # ---- what was found, smallest first
    found = [x["found"] for x in res if x.get("found")]
    found.sort(key=lambda f: (len(f["config"].get("ops", [])) , len(f["decisions"]), f["seed"]))
    violation, unconfirmed = None, sum(x["unconfirmed"] for x in res)
    inexact = None
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in found:
        path = os.path.join(rdir, "%s-%s.json" % (prop, f["seed"]))
        json.dump(f, open(path, "w"), indent=1, ensure_ascii=False)
        c = subprocess.run([BIN, "replay", path], capture_output=True, text=True)
        if c.returncode == 1 and "reproduced exactly" in c.stdout:
            violation = (f, path)
            break
        if c.returncode == 1 and "reproduced, by a different execution" in c.stdout and inexact is None:
            inexact = (f, path)
        unconfirmed += 1
        print("check: a violation did not replay exactly: %s\n%s" % (f["violation"], c.stdout[-500:]))
    # A violation that replays, but not bit by bit, is still a violation.
    violation = violation or inexact
    # ---- totals
    def tot(k):
        return sum(x[k] for x in res)

    def merge(k):
        m = {}
        for x in res:
            for a, b in x[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))

    def union(k):
        v = 0
        for x in res:
            v |= int(x[k], 16)
        return bin(v).count("1")

    errors = [e for x in res for e in x["errors"]]
    runs = tot("runs") if res else 0
    outcomes = merge("outcomes") if res else {}
    wall = max([x["wall"] for x in res] or [1])
    comp = {}
    for line in subprocess.run([BIN], capture_output=True, text=True).stdout.splitlines():
        name, _, real, stub = line.split("\t")
        if name in p["scenarios"]:
            comp[name] = {"real_code": real, "stubs": stub}
    judged = outcomes.get("done", 0) + outcomes.get("violation", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(orders),
            "rule": "One case is one simulated run: the seed draws the configuration, the operations and their arguments, the "
                    "scheduling policy, every scheduling decision and every fault. distinct_nontrivial counts runs with distinct "
                    "interleaving fingerprints, a hash over every context switch (who was preempted at which program point, who runs "
                    "next) of the run. " + p.get("rule", ""),
            "samples": [s for x in res for s in x["samples"][:1]][:4],
            "runs_per_hour": round(3600 * runs / wall) if runs else 0,
            "seeds_per_hour": round(3600 * runs / wall) if runs else 0,
            "simulated_seconds": round(tot("sim_ns") / 1e9, 3) if res else 0,
            "simulated_steps": tot("steps") if res else 0,
            "context_switches": tot("switches") if res else 0,
            "simulated_threads": tot("threads") if res else 0,
            "faults_injected": merge("faults") if res else {},
            "situations_reached": merge("probes") if res else {},
            "runs_by_scenario": merge("by_scenario") if res else {},
            "outcomes": outcomes,
            "distinct_interleavings": len(orders),
            "preemption_point_pairs_reached": union("pairs") if res else 0,
            "program_points_reached": union("cov") if res else 0,
            "program_points_total": max([x["guards"] for x in res] or [0]),
            "scheduling_policies": dict(zip(["random", "pct", "starve", "replay", "other"],
                                            [sum(x["policy"][i] for x in res) for i in range(5)])),
            "repeatability_rechecks": tot("recheck") if res else 0,
            "not_repeatable": tot("nondet") if res else 0,
            "runs_cut_to_fair_schedule": tot("fair_phase") if res else 0,
            "other_property_observations": tot("other") if res else 0,
            "known_finding_hits": tot("known") if res else 0,
            "violations_not_confirmed": unconfirmed,
            "harness_errors": errors[:10],
            "components": comp,
            "build_seconds": round(built, 1),
            "explanation": p.get("explanation", ""),
        },
        "assumptions": plan["assumptions"] + p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    shutil.rmtree(work, ignore_errors=True)
    print("check %s (%s): %d runs in %.0f s (+%.0f s build), %d distinct interleavings, outcomes %s, faults %s" %
          (prop, tier, runs, wall, built, len(orders), outcomes, ev["coverage"]["faults_injected"]))
    for e in errors[:3]:
        print("check: note:", e[:300])
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violation:
        f, path = violation
        print("%s: %s (seed %s, %d decisions, %d operations)" %
              (f["scenario"], f["violation"], f["seed"], len(f["decisions"]), len(f["config"].get("ops", []))))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if lost or runs == 0 or judged * 2 < runs:
        print("check: no answer: %d workers lost, %d of %d runs judged" % (lost, judged, runs))
        return 2
    return 0


sys.exit(main())
