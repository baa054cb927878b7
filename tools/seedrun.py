#!/usr/bin/env python3
"""Runs the check of each planted bug's property with the bug applied to /repo (development only).

    seedrun.py [ID ...]      prints: id property caught|MISSED seconds first violation"""
import json, os, subprocess, sys, time
S = "/verif/seeded"
RES = "/verif/tools/seed_results.json"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    pid = json.load(open(f"{S}/{i}/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --short -uno", shell=True, capture_output=True, text=True).stdout.strip(), "repo dirty"
    try:
        r = subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"])
        if r.returncode:
            print(i, pid, "DOES NOT APPLY", flush=True)
            continue
        t = time.time()
        p = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
        ok = p.returncode == 1 and any(f"property={pid}" in l for l in v)
        print(i, pid, "caught" if ok else f"MISSED rc={p.returncode}", f"{time.time()-t:.0f}s", (p.stdout + p.stderr)[-300:].replace("\n", " | "), flush=True)
        R = json.load(open(RES)) if os.path.exists(RES) else {}
        R[i] = "caught" if ok else "missed"
        json.dump(R, open(RES, "w"), indent=1, sort_keys=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])

# The table in DESIGN.md.
R = json.load(open(RES)) if os.path.exists(RES) else {}
rows = ["| planted bug | property | what it breaks | its check |", "|---|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{i}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), R.get(i, "not run")))
d = open("/verif/DESIGN.md").read()
a, b = "<!-- table -->", "<!-- end -->"
if a in d:
    d = d[:d.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + d[d.index(b):]
    open("/verif/DESIGN.md", "w").write(d)
