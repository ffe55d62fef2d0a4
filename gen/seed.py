#!/usr/bin/env python3
"""seed.py: builds /verif/seeded/<id>/ from gen/bugs.py in a scratch copy of /repo and confirms
that each bug applies, builds, passes the stable tests, changes original lines, and that its
demonstration passes without it and fails with it.   seed.py [id ...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, "/verif/gen")
from bugs import BUGS
BASE = "531cb6e"
def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
w=/tmp/thermal_demo_%(id)s
rm -rf /tmp/thermal_demo_%(id)s
mkdir -p $w/src
cp "$here/demo.rs" $w/src/main.rs
cat > $w/Cargo.toml <<T
[package]
name = "demo_%(low)s"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
T
cp $root/Cargo.lock $w/ 2>/dev/null || true
rc=0
(cd $w && CARGO_NET_OFFLINE=true cargo run --offline -q --target-dir $w/target) || rc=$?
rm -rf /tmp/thermal_demo_%(id)s
exit $rc
'''
work = "/tmp/seedcopy"
want = sys.argv[1:]
if os.path.exists(work): shutil.rmtree(work)
sh("cp -a /repo " + work)
sh("git checkout -q -- .", cwd=work)
env_ok = open("/opt/vp/test.sh").read()
for b in BUGS:
    if want and b["id"] not in want: continue
    d = "/verif/seeded/" + b["id"]
    sh("git checkout -q -- .", cwd=work)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "anchor count", s.count(old), f); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", cwd=work)
    open(d + "/patch.diff", "w").write(diff)
    deps = "\n".join('%s = { path = "$root/%s" }' % (c, c) for c in b.get("crates", ["thermal_parser"]))
    open(d + "/demo.sh", "w").write(DEMO % {"id": b["id"], "low": b["id"].lower().replace("-", "_"), "deps": deps})
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # original lines?
    base_ok = all(any(l.strip() and l.strip() in subprocess.run(["git", "show", BASE + ":" + f], cwd=work, capture_output=True, text=True).stdout for l in [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]) for f, _, _ in b["edits"])
    rc1, o1 = sh("bash %s/demo.sh" % d, cwd=work)
    rc_t, o_t = sh("cargo test --offline 2>&1 | grep -E '^test |^error' ; true", cwd=work)
    fails = [l for l in o_t.splitlines() if "FAILED" in l or l.startswith("error")]
    sh("git checkout -q -- .", cwd=work)
    rc0, o0 = sh("bash %s/demo.sh" % d, cwd=work)
    good = base_ok and rc0 == 0 and rc1 != 0 and not fails and "... ok" in o_t
    print(b["id"], "OK" if good else "BAD", "orig=%s clean=%d bug=%d fails=%s" % (base_ok, rc0, rc1, fails[:3]))
    if not good:
        print(o0[-800:], "\n---\n", o1[-800:])
shutil.rmtree(work)
