"""mkseed.py ID PROPERTY NEEDS BREAKS [CASE.json]: keeps the change in SEED_REPO (a clone of /repo) as seeded/ID.

Runs the property's check against the changed clone, and takes the demonstrating case from its replay file
unless one is given. Development aid: no check uses it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.environ.get("SEED_DIR", "/tmp/sd")
ident, prop, needs, breaks = sys.argv[1:5]
given = sys.argv[5] if len(sys.argv) > 5 else None
repo = f"{SD}/repo"
diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
env = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=f"{SD}/work", VERIF_SEED="1", VERIF_TIER="quick")
p = subprocess.run([sys.executable, f"{V}/tools/check.py", prop], env=env, capture_output=True, text=True)
m = re.search(r"VIOLATION property=\S+ replay=(\S+)", p.stdout)
print("check:", p.returncode, "caught" if p.returncode == 1 and m else "MISSED", p.stderr[-1500:] if p.returncode == 2 else "")
print("\n".join(l for l in p.stdout.splitlines() if "violation:" in l)[:1500])
d = f"{V}/seeded/{ident}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
open(f"{d}/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks, "caught_by": prop if p.returncode == 1 else None},
          open(f"{d}/meta.json", "w"), indent=1)
rep = json.load(open(given)) if given else (json.load(open(m[1])) if m else None)
kind = rep.get("kind", "evm-case") if rep else None
if kind == "evm-case":
    case = rep["record"]["case"] if "record" in rep else rep
    json.dump(case, open(f"{d}/case.json", "w"), indent=1)
    cmd = '''"$T/target/debug/evmh" case "$D/case.json" > "$T/out.json" || { echo "the case does not run"; exit 1; }
python3 - "$T/out.json" <<'P'
import json, sys
r = json.load(open(sys.argv[1]))
print("compiled: ", json.dumps(r["obs"])[:600])
print("reference:", json.dumps(r["reference"])[:600])
sys.exit("differs in " + ", ".join(r["diff"]) if r["diff"] else 0)
P'''
    pkg, harness = "evmh", ["evmh"]
elif kind:
    json.dump(rep, open(f"{d}/case.json", "w"), indent=1)
    cmd = rep["demo"]
    pkg, harness = rep["pkg"], rep["harness"]
else:
    print("no case: write case.json and demo.sh by hand")
    sys.exit(1)
k = f"{d}/kit"
os.makedirs(f"{k}/tools")
shutil.copy(f"{V}/tools/shadow.py", f"{k}/tools/shadow.py")
shutil.copytree(f"{V}/fake-llvm", f"{k}/fake-llvm")
for h in harness:
    shutil.copytree(f"{V}/harness/{h}", f"{k}/harness/{h}")
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Runs one case through the compiler built from the current directory and compares it with what must happen.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$T/target VERIF_REPO=$PWD VERIF_WS=$T/ws
python3 "$D/kit/tools/shadow.py" || exit 0
(cd "$T/ws" && cargo build --offline -q -p {pkg} 2>"$T/err") || {{ tail -5 "$T/err"; echo "cannot build"; exit 0; }}
{cmd}
''')
os.chmod(f"{d}/demo.sh", 0o755)
