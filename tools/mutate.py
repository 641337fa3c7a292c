#!/usr/bin/env python3
"""mutate.py WORKER NWORKERS [OUT] [SEED] [FRACTION] [FILEREGEX]: a mutation campaign, in scratch copies.
Small changes of single lines of /repo's sources; those that build and pass the
stable tests go through the checks (scaled down, in an order that fits the file)
until one reports a violation. Survivors are to be read by hand: most are
equivalent, the others show what no check looks at."""
import glob, re, sys, os, subprocess, random, json, shutil, hashlib
w, n = int(sys.argv[1]), int(sys.argv[2])
out = sys.argv[3] if len(sys.argv) > 3 else "/tmp/mut/out"
seed = sys.argv[4] if len(sys.argv) > 4 else "1"
frac = float(sys.argv[5]) if len(sys.argv) > 5 else 1.0
frx = sys.argv[6] if len(sys.argv) > 6 else "."
S = f"/tmp/mut/w{w}"
R, V = S + "/repo", S + "/verif"
os.makedirs(S, exist_ok=True)
subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", R + "/"]) if shutil.which("rsync") else subprocess.check_call(["sh", "-c", f"mkdir -p {R} && cd /repo && tar cf - --exclude=./target . | tar xf - -C {R}"])
subprocess.check_call(["sh", "-c", f"mkdir -p {V} && cd /verif && tar cf - harness check.sh known_findings.txt properties.jsonl MANIFEST.json | tar xf - -C {V}"])
for f in (V + "/harness/Cargo.toml", V + "/check.sh"):
    s = open(f).read().replace("/repo/", R + "/")
    s = "".join(l + "\n" for l in s.split("\n") if not l.startswith("rm -rf"))  # each mutant has a new time stamp
    open(f, "w").write(s)
for root, _, fs in os.walk(V + "/harness/src"):
    for f in fs:
        p = root + "/" + f; s = open(p).read()
        if '"/repo' in s: open(p, "w").write(s.replace('"/repo', '"' + R))

FILES = [l for l in subprocess.check_output(["git", "-C", "/repo", "ls-files", "layout/src", "src"], text=True).split() if l.endswith(".rs") and re.search(frx, l)]
OPS = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmax\(", "min("), (r"\bmin\(", "max("),
       (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\bleft\(", "right("), (r"\bright\(", "left("), (r"\btop\(", "bottom("), (r"\bbottom\(", "top("),
       (r"\.is_empty\(\)", ".len() == 1"), (r"\bif (?!let)(.+) \{$", r"if false && (\1) {"), (r"\bif (?!let)(.+) \{$", r"if true || (\1) {"),
       (r"\bwhile (?!let)(.+) \{$", r"while false && (\1) {"),
       (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"), (r"\b0\.", "1."), (r"\b1\.", "2."), (r"\b2\.", "1."),
       (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\bstarts_with\b", "ends_with"), (r"\bpred", "succ"), (r"\bsucc", "pred"),
       (r"\.rev\(\)", ""), (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"!(?=[a-z(])", ""), (r"\.\.=", ".."), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
       (r"^(\s*)([a-z_][\w.]*(?:\(.*\)|\s[-+]?= .*|\..*\));)$", r"\1// gone"), (r"\bSome\((.*)\)$", "None"), (r'"([a-z]+)"', r'"\1x"')]
muts = []; SRC = {}
for f in FILES:
    SRC[f] = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
    open(R + "/" + f, "w").write(SRC[f])
    src = SRC[f].split("\n"); test = False
    for i, l in enumerate(src):
        if "#[cfg(test)]" in l or "#[test]" in l: test = True
        if test:
            if l == "}": test = False
            continue
        c = l.strip()
        if not c or c.startswith(("//", "use ", "#[", "pub mod", "mod ")): continue
        code = l.split(" // ")[0]
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, code):
                nl = code[:m.start()] + m.expand(b) + code[m.end():]
                if nl != code: muts.append((f, i, nl, l))
seen = set(); ms = []
for m in muts:
    if m[:3] not in seen: seen.add(m[:3]); ms.append(m)
rnd = random.Random(seed)
ms = [m for m in ms if rnd.random() < (frac if "color.rs" not in m[0] else frac / 4)]
rnd.shuffle(ms)
if w == 0: print(len(ms), "mutants", flush=True)
ORDER = {"lexer": "C02 C03 C25 C01 C24", "parser.rs": "C02 C03 C25 C01", "printer": "C26", "record.rs": "C14 C01 C05", "builder": "C04 C05 C11 C14", "svg.rs": "C12 C05 C13", "shapes.rs": "C14 C06 C08",
 "render.rs": "C07 C14 C06 C04 C19", "bk.rs": "C08 C10 C13 C07", "edge_fixer": "C08 C07 C06", "color": "C21", "geometry": "C19 C20 C07 C10", "map.rs": "C18", "dag.rs": "C15 C16 C17", "optimizer": "C17 C16 C09",
 "simple.rs": "C08 C09", "move_between": "C08 C09", "verifier": "C08", "layout.rs": "C06 C07 C09 C10 C23", "src/bin": "C22", "utils": "C22", "format": "C06 C12", "style": "C12", "base": "C20"}
ALL = [f"C{i:02}" for i in range(1, 29)]
done = set()
for q in glob.glob(f"{out}.*.jsonl"):
    for l in open(q):
        r = json.loads(l); done.add((r["f"], r["i"], r["new"]))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/tt", VP_SCALE="0.3", VERIF_SEED="1", VERIF_TIER="quick")
log = open(f"{out}.{w}.jsonl", "a")
def run(cmd, cwd, t, **e):
    try:
        p = subprocess.run(["timeout", "-s", "KILL", str(t)] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env, **e))
        return p.returncode, p.stdout.decode(errors="replace")
    except Exception as x: return -99, str(x)
for k, (f, i, nl, old) in enumerate(ms):
    if k % n != w or (f, i + 1, nl.strip()) in done: continue
    p = R + "/" + f
    src = SRC[f]; L = src.split("\n"); L[i] = nl
    open(p, "w").write("\n".join(L))
    res = {"f": f, "i": i + 1, "old": old.strip(), "new": nl.strip()}
    rc, o = run(["cargo", "test", "-q", "--workspace", "--no-fail-fast", "--offline"], R, 200)
    if "error: could not compile" in o or re.search(r"^error(\[|:).*\n\s+-->", o, re.M): res["r"] = "nobuild"
    elif rc != 0: res["r"] = "tests"
    else:
        res["r"] = "SURVIVED"; res["odd"] = []
        first = next((v.split() for q, v in ORDER.items() if q in f), [])
        for c in first + [x for x in ALL if x not in first]:
            rc, o = run(["bash", V + "/check.sh", c], V, 400, CARGO_TARGET_DIR="")
            if rc == 1 and f"VIOLATION property={c}" in o: res["r"] = c; break
            if rc != 0: res["odd"].append([c, rc, o[-300:]])
    open(p, "w").write(src)
    log.write(json.dumps(res) + "\n"); log.flush()
