#!/usr/bin/env python3
"""Makes and confirms planted bugs (by hand; no check uses this).

plant.py SPEC.py [ID..]   SPEC defines BUGS = [dict(id, prop, edits=[(file, old,
new)..], demo, needs, breaks)]. Each is confirmed in a scratch copy of /repo:
builds, 27 tests pass, the demo passes without and fails with it. Then it is kept
in /verif/seeded.
"""
import subprocess, sys, os, json, shutil, re, runpy
SC = "/tmp/sc"; BASE = "692a061"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = open(os.path.join(V, "tools", "demo_help.rs")).read()
ENV = dict(os.environ, CARGO_TARGET_DIR=SC + "/target", CARGO_NET_OFFLINE="true")

def sh(cmd, cwd=SC, ok=True, timeout=900, env=ENV):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    o = p.stdout.decode(errors="replace")
    if ok and p.returncode: raise RuntimeError(f"{cmd}: {p.returncode}\n{o[-3000:]}")
    return p.returncode, o

DEMO = r'''#!/bin/bash
# Exit 0: the property holds here. Runs in the root of the repository.
D="$(cd "$(dirname "$0")" && pwd)"
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
rustc --edition 2018 --crate-type rlib --crate-name layout -A warnings layout/src/lib.rs -o "$S/liblayout.rlib" || exit 2
rustc --edition 2021 -A warnings "$D/demo.rs" --extern layout="$S/liblayout.rlib" -o "$S/demo" || exit 2
cd "$S" && timeout 120 ./demo
'''
DEMO_CLI = r'''#!/bin/bash
# Exit 0: the property holds here. Runs in the root of the repository.
D="$(cd "$(dirname "$0")" && pwd)"
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
CARGO_TARGET_DIR="$S/t" CARGO_NET_OFFLINE=true cargo build -q --offline --bin layout || exit 2
cp "$S/t/debug/layout" "$S/layout"; cd "$S"
'''

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    if not os.path.isdir(SC): sh(f"cp -a /repo {SC}", cwd="/")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    bad = []
    for b in bugs:
        if want and b["id"] not in want: continue
        try: one(b)
        except Exception as e:
            print(f"{b['id']}: FAILED {e}"); bad.append(b["id"])
        finally: sh("git checkout -q -- .")
    print("bad:", bad)

def one(b):
    d = f"{V}/seeded/{b['id']}"
    tmp = "/tmp/plant-" + b["id"]
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    if "cli" in b: open(tmp + "/demo.sh", "w").write(DEMO_CLI + b["cli"])
    else:
        open(tmp + "/demo.sh", "w").write(DEMO)
        open(tmp + "/demo.rs", "w").write(HELP + b["demo"])
    for f, old, new in b["edits"]:
        s = open(f"{SC}/{f}").read()
        assert s.count(old) == 1, f"{f}: {s.count(old)} matches of {old!r}"
        open(f"{SC}/{f}", "w").write(s.replace(old, new))
    _, diff = sh("git diff")
    # Lines of the original repository.
    removed = base = 0
    for f, _, _ in b["edits"]:
        _, o = sh(f"git show {BASE}:{f}")
        orig = set(l for l in o.split("\n"))
        _, df = sh(f"git diff -U0 {f}")
        for l in df.split("\n"):
            if l.startswith("-") and not l.startswith("---"):
                removed += 1; base += l[1:] in orig
    assert removed and base == removed, f"removes {removed} lines, {base} of them original\n{diff}"
    rc, o = sh("cargo test --workspace --no-fail-fast --offline 2>&1", ok=False)
    n = len(re.findall(r"^test .* \.\.\. ok$", o, re.M))
    assert rc == 0 and n == 27, f"tests: rc {rc}, {n} pass\n{o[-1500:]}"
    rc, o = sh(f"bash {tmp}/demo.sh", ok=False, timeout=290)
    assert rc not in (0, 2), f"demo with the bug: {rc}\n{o[-1500:]}"
    why = o.strip().split("\n")[-1][-160:]
    sh("git checkout -q -- .")
    rc, o = sh(f"bash {tmp}/demo.sh", ok=False, timeout=290)
    assert rc == 0, f"demo on the clean tree: {rc}\n{o[-1500:]}"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(f"{b['id']}: kept   ({why})", flush=True)
main()
