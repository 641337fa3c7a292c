#!/usr/bin/env python3
"""probe.py SPEC.py [ID..]: quick trials of changes, in scratch copies.
SPEC defines P = [(id, "C01 C02", [(file, old, new)..])]. Like planted bugs, but
without a demonstration; shows which of the named checks catch the change."""
import re, sys, os, subprocess, runpy
S = "/tmp/pr"; R, V = S + "/repo", S + "/verif"
os.makedirs(S, exist_ok=True)
subprocess.check_call(["sh", "-c", f"mkdir -p {R} {V} && cd /repo && git archive HEAD | tar xf - -C {R}; cd /verif && tar cf - harness check.sh known_findings.txt properties.jsonl MANIFEST.json | tar xf - -C {V}"])
for root, _, fs in os.walk(V + "/harness"):
    for f in fs + (["../check.sh"] if root == V + "/harness" else []):
        p = os.path.join(root, f)
        if not p.endswith((".rs", ".toml", ".sh")): continue
        s = open(p).read(); t = s.replace("/repo/", R + "/").replace('"/repo"', f'"{R}"')
        if s != t: open(p, "w").write(t)
env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_TIER="quick")
P = runpy.run_path(sys.argv[1])["P"]; want = sys.argv[2:]
def sh(cmd, **e):
    p = subprocess.run(cmd, shell=True, cwd=R, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")
for i, checks, edits in P:
    if want and i not in want: continue
    try:
        orig = {}
        for f, old, new in edits:
            s = open(f"{R}/{f}").read(); orig.setdefault(f, s)
            assert s.count(old) == 1, f"{s.count(old)} matches of {old!r} in {f}"
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        rc, o = sh("cargo test -q --workspace --no-fail-fast --offline", CARGO_TARGET_DIR=S + "/tt")
        n = sum(int(x) for x in re.findall(r"(\d+) passed", o))
        if rc or n != 27: print(f"{i}: tests rc {rc} {n}\n{o[-1500:]}", flush=True); continue
        got = []
        for c in checks.split():
            rc, o = sh(f"bash {V}/check.sh {c}")
            if rc == 1 and f"VIOLATION property={c}" in o:
                m = [l for l in o.split("\n") if l.startswith("failure:")]
                got.append(f"{c} ({m[0][9:100] if m else ''})")
            elif rc: got.append(f"{c} exit {rc}: {o[-300:]}")
        print(f"{i}: {'caught: ' + '; '.join(got) if got else 'MISSED by ' + checks}", flush=True)
    except AssertionError as e: print(f"{i}: {e}", flush=True)
    finally:
        for f, s in orig.items(): open(f"{R}/{f}", "w").write(s)
