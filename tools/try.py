#!/usr/bin/env python3
"""try.py [--all] [--checks C01,C02] [ID..]: runs checks against planted bugs (by hand).
Without --checks: the check of the bug's own property; --all: every check."""
import subprocess, sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
every = "--all" in a
checks = None
if "--checks" in a:
    i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
ids = [x for x in a if not x.startswith("--")]
res = {}
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    if ids and i not in ids: continue
    prop = json.load(open(d + "meta.json"))["property"]
    cs = checks or ([f"C{k:02}" for k in range(1, 34)] if every else [prop])
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "patch.diff"])
    try:
        caught = []
        for c in cs:
            p = subprocess.run(["bash", V + "/check.sh", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)
            o = p.stdout.decode(errors="replace")
            if p.returncode == 1 and f"VIOLATION property={c}" in o:
                caught.append(c)
                msg = [l for l in o.split("\n") if l.startswith("failure:")]
            elif p.returncode != 0: print(i, c, "exit", p.returncode, o[-500:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    res[i] = caught
    print(f"{i}: {'caught by ' + ' '.join(caught) if caught else 'MISSED'} {'' if not caught or len(cs) > 1 else msg[0][:150] if msg else ''}", flush=True)
    if every or checks: json.dump(res, open("/tmp/matrix.json", "w"), indent=1)
