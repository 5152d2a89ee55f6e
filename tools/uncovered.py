#!/usr/bin/env python3
"""Lists the lines of /repo that no run reached.

usage: uncovered.py BINARY SCENARIO... (after building; some runs of each)
"""
import collections, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
binary, scens = sys.argv[1], sys.argv[2:]
exe = os.path.join(os.environ.get("VSIM_BUILD", V + "/build"), "target/debug", binary)
total = os.environ.get("TOTAL", "1500")
hit = {}
with tempfile.TemporaryDirectory() as d:
    ps = []
    for s in scens:
        for k in range(int(os.environ.get("J", "2"))):
            f = "%s/%s.%d" % (d, s, k)
            ps.append((f, subprocess.Popen([exe, "dev", s, "--seed", str(900 + k), "--count", total], env=dict(os.environ, VSIM_POINTS=f), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for f, p in ps:
        p.wait()
        for l in open(f):
            pc, h = l.split()
            hit[pc] = hit.get(pc, 0) | int(h)
pcs = list(hit)
out = subprocess.run(["addr2line", "-e", exe], input="\n".join("0x" + p for p in pcs), capture_output=True, text=True).stdout.split("\n")
lines = collections.defaultdict(lambda: [0, 0])
for pc, l in zip(pcs, out):
    l = l.split(" ")[0]
    if ":" in l and "/rustc/" not in l and "/registry/" not in l:
        f, n = l.rsplit(":", 1)
        if n.isdigit():
            lines[(f, int(n))][hit[pc]] += 1
for (f, n), (miss, got) in sorted(lines.items()):
    if not got:
        try:
            t = open(f if f.startswith("/") else os.path.join("/repo/crates", f)).read().split("\n")[n - 1].strip()
        except (OSError, IndexError):
            t = ""
        print("%s:%d: %s" % (f, n, t))
