#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py (P, EDITS, NEEDS, BREAKS, DEMO, optional DEPS) and,
with --try, confirms in /repo (left as it was) that the change builds, passes the stable tests, and that the demo tells it from the original;
the checks named by --checks (default: that of the property) are run on the changed tree too."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PRELUDE = {}
for n in os.listdir(V + "/tools/seeds"):
    if n.endswith(".rs"):
        PRELUDE[n[:-3]] = open(V + "/tools/seeds/" + n).read()
SH = r'''#!/bin/bash
# exit 0: the property's instance below holds in /repo's current tree
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
unset CARGO_TARGET_DIR
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$T" -delete' EXIT
python3 "$D/view.py" "$T/ws" || exit 2
mkdir -p "$T/ws/demo/src"
cp "$D/demo.rs" "$T/ws/demo/src/main.rs"
cp "$D/Cargo.toml.in" "$T/ws/demo/Cargo.toml"
sed -i 's#^members = \[#members = [ "demo",#' "$T/ws/Cargo.toml"
printf '\n[profile.dev]\nopt-level = %s\ndebug = 0\nincremental = false\noverflow-checks = false\n' >> "$T/ws/Cargo.toml"
cd "$T/ws" || exit 2
export CARGO_TARGET_DIR="$T/target"
timeout 280 cargo build -q --offline -p demo 2>"$T/log" || { tail -20 "$T/log"; exit 3; }
timeout 100 "$T/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
mpc-core = { path = "../mpc-core" }
mpc-net = { path = "../mpc-net", features = ["local"%s] }
ark-bn254 = { workspace = true }
ark-ff = { workspace = true }
ark-ec = { workspace = true }
ark-serialize = { workspace = true }
bytes = { workspace = true }
eyre = { workspace = true }
rand = { workspace = true }
%s
'''
def load(i):
    d = {}
    exec(compile(open("%s/tools/seeds/%s.py" % (V, i)).read(), i, "exec"), d)
    return d
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def edits(d):
    for f, old, new in d["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, "%s: %d matches for %r" % (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
def make(i):
    d = load(i)
    o = "%s/seeded/%s" % (V, i)
    os.makedirs(o, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    try:
        edits(d)
        open(o + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    shutil.copy(V + "/tools/view.py", o + "/view.py")
    open(o + "/demo.sh", "w").write(SH.replace("%s", str(d.get("OPT", 0)), 1) if False else SH % d.get("OPT", 0))
    os.chmod(o + "/demo.sh", 0o755)
    deps = d.get("DEPS", "")
    open(o + "/Cargo.toml.in", "w").write(TOML % ("".join(', "%s"' % x for x in d.get("NETF", ())), deps))
    open(o + "/demo.rs", "w").write(PRELUDE[d.get("PRELUDE", "shamir")] + d["DEMO"])
    json.dump({"property": d["P"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    return d, o
def main():
    args = sys.argv[1:]
    tr = "--try" in args
    nodemo = "--nodemo" in args
    ck = [a[9:] for a in args if a.startswith("--checks=")]
    ids = [a for a in args if not a.startswith("--")]
    for i in ids:
        d, o = make(i)
        print("==", i, d["P"])
        if not tr:
            continue
        if not nodemo:
            r = sh("cd /repo && bash %s/demo.sh" % o)
            print("  demo unpatched:", r.returncode, r.stdout.strip()[-300:] if r.returncode else "")
        try:
            r = sh("git -C /repo apply %s/patch.diff" % o); assert r.returncode == 0, r.stdout
            r = sh("bash /opt/vp/build.sh"); print("  build:", r.returncode, r.stdout[-800:] if r.returncode else "")
            if r.returncode:
                continue
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            res = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base.get("stable") or base.get("tests") or base.get("passing") or base)
            got = set(res.get("passed", []))
            print("  stable tests failing:", sorted(want - got)[:6], len(want), len(got))
            if not nodemo:
                r = sh("cd /repo && bash %s/demo.sh" % o)
                print("  demo patched:", r.returncode, r.stdout.strip()[-300:])
            for c in (ck[0].split(",") if ck else [d["P"]]):
                r = sh("cd %s && python3 check.py %s" % (V, c))
                print("  check %s: exit %d; %s" % (c, r.returncode, " / ".join(x[:220] for x in r.stdout.splitlines() if "VIOLATION" in x or "undecided" in x or x.startswith("  "))[:500]))
        finally:
            sh("git -C /repo checkout -- .")
main()
