#!/usr/bin/env python3
"""mkseed.py: turn seed definitions (tools/seeds_*.py) into /verif/seeded/<id>/ after
confirming in a scratch copy: applies, builds, tests pass, demo 0 before / nonzero after."""
import json, os, subprocess as sp, sys, tempfile, shutil, glob
V = "/verif"
def sh(c, cwd=None, env=None):
    return sp.run(c, shell=True, cwd=cwd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, env=env)
DEMO = r'''#!/bin/bash
# cwd: /repo.  Compiles demo.rs against the repository's sources and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "${T:?}"' EXIT
mkdir "$T/src"
cp "$D"/*.rs "$T/src/" && mv "$T/src/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<'EOT'
[package]
name = "demo"
version = "0.1.0"
edition = "@EDITION@"
[workspace]
[dependencies]
@DEPS@
EOT
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings cargo run -q --offline
'''
def make(sid, prop, file, old, new, needs, breaks, demo, deps="", edition="2024", extra=None, demo_sh=None, count=1):
    d = f"{V}/seeded/{sid}"
    if os.path.exists(d) and not os.environ.get("FORCE"):
        return
    edits = file if isinstance(file, list) else [(file, old, new)]
    orig = {}
    for f, o, n in edits:
        p = f"/repo/{f}"
        s = open(p).read()
        orig.setdefault(p, s)
        assert s.count(o) == count, (sid, f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    diff = sh("git diff", "/repo").stdout
    sh("git checkout -- .", "/repo")
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(demo) if demo else None
    for k, v in (extra or {}).items():
        open(f"{d}/{k}", "w").write(v)
    open(f"{d}/demo.sh", "w").write(demo_sh or DEMO.replace("@DEPS@", deps).replace("@EDITION@", edition))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    __import__("sys").stdout.flush()
    ok = True
    r0 = sh(f"{d}/demo.sh", "/repo")
    assert sh(f"git apply {d}/patch.diff", "/repo").returncode == 0
    try:
        b = sh("bash /opt/vp/build.sh", "/repo")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
        r1 = sh(f"{d}/demo.sh", "/repo")
    finally:
        sh("git checkout -- .", "/repo")
    good = r0.returncode == 0 and b.returncode == 0 and "30 passed, 0 failed" in t.stdout and r1.returncode not in (0,) and "error: could not compile" not in r1.stdout
    print(("ok  " if good else "BAD ") + sid, r0.returncode, b.returncode, t.stdout.strip().splitlines()[-1:], r1.returncode)
    if not good:
        print(r0.stdout[-1500:], b.stdout[-500:] if b.returncode else "", r1.stdout[-1500:])
        shutil.rmtree(d)
for f in sys.argv[1:] or sorted(glob.glob(f"{V}/tools/seeds_*.py")):
    exec(open(f).read(), dict(make=make))
