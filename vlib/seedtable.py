#!/usr/bin/env python3
"""seedtable.py [ID...]: apply every planted bug to /repo in turn, run the check of its property, undo it, and print one
row per bug: which check it is for, what the check answered, and how (a failing input, or only a failed obligation)."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
print("| planted bug | what it needs | check | answer |\n|---|---|---|---|", flush=True)
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        out = subprocess.run([sys.executable, V + "/vlib/check.py", meta["property"]], cwd=V, capture_output=True, text=True, timeout=900).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    viol = [l for l in out.split("\n") if l.startswith("VIOLATION")]
    if not viol:
        how = "**missed**"
    elif viol[0].endswith("no-failing-input-found"):
        how = "failed obligation"
    else:
        how = "failing input on the real code"
    print(f"| {i} | {meta['needs'].strip().replace('|', '/')} | {meta['property']} | {how} |", flush=True)
