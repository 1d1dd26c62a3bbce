"""tools/fixed.py HASH PROP [HASH PROP ...]: record repairs of /repo in known_findings.json"""
import json, subprocess, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, "findings", "known_findings.json")
d = json.load(open(p))
a = sys.argv[1:]
for h, prop in zip(a[::2], a[1::2]):
    full, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h|%s", h], capture_output=True, text=True, check=True).stdout.strip().split("|", 1)
    line = f"fixed: property={prop} {full} {s.removeprefix('fix: ')}"
    if line not in d["fixed"]:
        d["fixed"].append(line)
json.dump(d, open(p, "w"), indent=1)
have = " ".join(d["fixed"])
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h not in have:
        print("UNRECORDED", l)
