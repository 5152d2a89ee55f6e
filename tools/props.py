#!/usr/bin/env python3
"""The one place the properties are written down: generates properties.jsonl,
MANIFEST.json and tools/plan.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SV = "crates/sync-lsp/src/server.rs"
LS = "crates/sync-lsp/src/server/lsp_srv.rs"
DS = "crates/sync-lsp/src/server/dap_srv.rs"
RQ = "crates/sync-lsp/src/req_queue.rs"
TR = "crates/sync-lsp/src/transport.rs"
MS = "crates/sync-lsp/src/msg.rs"
LM = "crates/sync-lsp/src/lsp.rs"
DM = "crates/sync-lsp/src/dap.rs"


def m(*a):
    return [{"name": n, "where": w} for n, w in a]


P = []


def prop(id, title, statement, over, text, why, files, mech, scenarios=None, secs=30, state=(), observe=(), na=None,
         note="", assumptions=(), hook=None, thorough=600, binary="vsim"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  scenarios=scenarios, secs=secs, state=state, observe=list(observe), na=na, note=note,
                  assumptions=list(assumptions), hook=hook, thorough=thorough, binary=binary))


VF = "crates/tinymist-vfs/src/lib.rs"
VO = "crates/tinymist-vfs/src/overlay.rs"
VN = "crates/tinymist-vfs/src/notify.rs"
WT = "crates/tinymist-project/src/watch.rs"
PC = "crates/tinymist-project/src/compiler.rs"
exec(open(os.path.join(ROOT, "tools/props_list.py")).read())

TECH = "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": me, "where": w} for n, me, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
checks = []
for p in P:
    if p["na"]:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py " + p["id"],
        "thorough_cmd": "python3 tools/check.py " + p["id"] + " --thorough",
        "technique": TECH,
        "level": "exploration",
        "level_note": p["note"] or "Seeded search, not exhaustive: the property held in every simulated run; the real crate code runs "
                      "unmodified, instrumented at compile time, under a simulated scheduler, clock, kernel interface and faults.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/build.sh && bash tools/build2.sh",
    "hooks": {"guard": "none", "enable": "No hooks in /repo: the seams are the libc symbols the process calls (interposed at link "
              "time), the heap, and compiler-inserted scheduling points (sanitizer coverage) in the crates under test.",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "See DESIGN.md. known-findings.txt lists the genuine defects found and fixed.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
json.dump({
    "assumptions": ASSUME,
    "properties": {p["id"]: {"scenarios": p["scenarios"], "secs": p["secs"], "thorough_secs": p["thorough"],
                             "assumptions": p["assumptions"], "binary": p["binary"]} for p in P if not p["na"]},
}, open(os.path.join(ROOT, "tools/plan.json"), "w"), indent=1, ensure_ascii=False)
