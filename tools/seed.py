#!/usr/bin/env python3
"""seed.py DEF.py : build planted bugs from definitions (development tool; not used by any check).
DEF.py defines SEEDS = [dict(id, property, file, edits=[(old,new)], needs, breaks, demo=RUST)]"""
import json, os, re, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository (built). exit 0: behaves; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\naws-smt-strings = { path = "%s" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet PROFILE || exit 3
timeout 120 "$d/target/MODE/demo"
'''
W = "/tmp/seedwork"
def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("pass", [])) if 0 else None
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
if not os.path.exists(W):
    shutil.copytree("/repo", W, symlinks=True)
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", W)
    path = os.path.join(W, s["file"])
    t = open(path).read()
    ok = True
    for f, o, n in [(e if len(e) == 3 else (s["file"],) + e) for e in s["edits"]]:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(o) != 1:
            print(s["id"], "EDIT matches", t.count(o), "times:", o[:60]); ok = False; break
        open(p, "w").write(t.replace(o, n))
    if not ok: sh("git checkout -q -f .", W); continue
    diff = sh("git diff", W).stdout
    d = os.path.join(R, "seeded", s["id"]); tmp = "/tmp/seedtmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    rel = s.get("release", False)
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.rs", "w").write(s["demo"])
    open(tmp + "/demo.sh", "w").write(DEMO.replace("PROFILE", "--release" if rel else "").replace("MODE", "release" if rel else "debug"))
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", W)
    fails = re.findall(r"^test (\S.*) \.\.\. FAILED", r.stdout, re.M)
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout))
    bad = sh("bash %s/demo.sh" % tmp, W)
    good = sh("bash %s/demo.sh" % tmp, "/repo")
    verdict = passed >= 161 and not fails and bad.returncode != 0 and bad.returncode != 3 and good.returncode == 0
    print(s["id"], "OK" if verdict else "REJECT", "tests passed", passed, "failed", fails[:5], "demo mutated rc", bad.returncode, "clean rc", good.returncode, (good.stderr[-500:] if good.returncode else ""), ("" if r.returncode in (0,) else r.stdout[-300:] if not passed else ""))
    if verdict:
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    sh("git checkout -q -f .", W)
