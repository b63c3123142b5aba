#!/usr/bin/env python3
"""Makes a seeded bug from a spec file: python3 tools/mkseed.py SPEC.py
SPEC.py sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], and either
  MAIN = a main.rs using crylib, or TEST = (file, rust test module body) appended to a private module of a copy.
Confirms in a scratch copy: builds, the tests pass, demo 0 without and nonzero with the patch."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
D = f"{V}/seeded/{ID}"
shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
W = tempfile.mkdtemp(prefix="seed", dir="/tmp")
R = W + "/repo"
subprocess.check_call(["git", "clone", "-q", "/repo", R])
for e in ns["EDITS"]:
    p = f"{R}/{e[0]}"
    s = open(p).read()
    n = s.count(e[1])
    if len(e) == 3: assert n == 1, (e[0], n)
    if len(e) == 4:
        parts = s.split(e[1]); k = e[3]
        s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
    else: s = s.replace(e[1], e[2])
    open(p, "w").write(s)
diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
open(D + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
HEAD = '''#!/bin/bash
# run with the repository as current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" CARGO_NET_OFFLINE=true
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
'''
if "MAIN" in ns:
    open(D + "/main.rs", "w").write(ns["MAIN"])
    open(D + "/demo.sh", "w").write(HEAD + '''mkdir -p "$w/d/src" && cp "$here/main.rs" "$w/d/src/main.rs" && cp -r "$repo/crylib" "$w/crylib" || exit 2
cat > "$w/d/Cargo.toml" <<'E'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crylib = { path = "../crylib" }
E
cd "$w/d" && CARGO_TARGET_DIR="$w/t" cargo run -q --offline
''')
else:
    f, body = ns["TEST"]
    open(D + "/demo_mod.rs", "w").write(body)
    pk = ns.get("PKG", "turtls")
    open(D + "/demo.sh", "w").write(HEAD + f'''cp -r "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/src" "$repo/crylib" "$w/" || exit 2
printf '\\n#[cfg(test)]\\nmod seeded_demo {{\\n' >> "$w/{f}"
cat "$here/demo_mod.rs" >> "$w/{f}"
printf '\\n}}\\n' >> "$w/{f}"
cd "$w" && CARGO_TARGET_DIR="$w/t" timeout 250 cargo test -q --offline -p {pk} --lib seeded_demo 2>&1 | tee "$w/log"
st=${{PIPESTATUS[0]}}
grep -q 'test result: ok. [1-9]' "$w/log" || st=1
exit $st
''')
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/t")
def demo():
    return subprocess.run(["bash", D + "/demo.sh"], cwd=R, capture_output=True, text=True)
r = demo()
ok = True
if r.returncode != 0: print(ID, "demo fails on unchanged tree", r.stdout[-1500:], r.stderr[-1500:]); ok = False
subprocess.check_call(["git", "-C", R, "apply", D + "/patch.diff"])
t = subprocess.run(["cargo", "test", "--workspace", "--offline", "--locked", "-q"], cwd=R, env=env, capture_output=True, text=True)
if t.returncode != 0: print(ID, "tests fail with patch", t.stdout[-2500:], t.stderr[-800:]); ok = False
r = demo()
if r.returncode == 0: print(ID, "demo passes with the patch"); ok = False
elif "error[E" in r.stderr or "could not compile" in r.stderr + r.stdout: print(ID, "demo does not compile with patch", r.stderr[-800:]); ok = False
# original lines?
print(ID, "OK" if ok else "BAD")
shutil.rmtree(W)
