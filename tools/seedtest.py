#!/usr/bin/env python3
"""seedtest.py [--all-checks] ID...: apply planted bugs one at a time and see whether the tests pass, the demo fails and
the property's check notices.  With no ID: all of them."""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
args = sys.argv[1:]
nodemo = "--no-demo" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
rows = []
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    row = [i, meta["property"]]
    if not nodemo:
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, cwd="/repo")
        row.append("demo-clean=%d" % subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True).returncode)
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        rows.append(row + ["DOES NOT APPLY"])
        print(rows[-1], flush=True)
        continue
    try:
        if not nodemo:
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], capture_output=True)
            passed = set(json.load(open("/tmp/seedtest.json"))["passed"])
            row.append("tests=" + ("ok" if set(base) <= passed else "FAIL:" + ",".join(set(base) - passed)))
            row.append("demo-bug=%d" % subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True).returncode)
        t = time.time()
        c = subprocess.run(["python3", "check.py", meta["property"]], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_TIER="quick"))
        caught = c.returncode == 1 and ("VIOLATION property=%s " % meta["property"]) in c.stdout
        row.append(("CAUGHT" if caught else "MISSED(exit %d)" % c.returncode) + " %.0fs" % (time.time() - t))
        m = re.search(r"rejected: ([^\n]{0,60})", c.stdout)
        row.append(m.group(1) if m else c.stdout[-300:] if not caught else "")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    rows.append(row)
    print(" | ".join(map(str, row)), flush=True)
subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, cwd="/repo")
