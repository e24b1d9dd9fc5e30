"""mutate2.py DIR GROUP N SEED [FILE...]: random small edits of the repository's sources, to see what the other harnesses notice.

Works in scratch copies under DIR only. Development aid: no check uses it.
GROUP: rt, helper, store, tx, asm, comp.
"""
import os
import random
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR, GROUP, N, SEED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
R = "crates/revmc-runtime/src/"
DEFAULT = {
    "rt": [R + "runtime/backend.rs", R + "runtime/mod.rs", R + "runtime/worker.rs", R + "runtime/stats.rs", R + "runtime/config.rs"],
    "helper": [R + "runtime/out_of_process.rs"],
    "store": [R + "runtime/storage.rs"],
    "tx": [R + "revm_evm.rs", R + "alloy_evm.rs", "crates/revmc-context/src/jit_evm.rs"],
    "asm": ["crates/revmc-codegen/src/bytecode/asm.rs", "crates/revmc-codegen/src/bytecode/fmt.rs", "crates/revmc-codegen/src/bytecode/opcode.rs"],
    "comp": ["crates/revmc-codegen/src/compiler/mod.rs", "crates/revmc-codegen/src/linker.rs"],
}
FILES = sys.argv[5:] or DEFAULT[GROUP]
PKG = {"rt": "rth", "helper": "helph", "store": "storeh", "tx": "txh", "asm": "asmh", "comp": "evmh"}[GROUP]
repo, work = f"{DIR}/repo", f"{DIR}/work"
os.makedirs(work, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", os.environ.get("VERIF_REPO", "/repo") + "/", repo + "/"], check=True)
BASE = os.environ.get("VERIF_REPO", "/repo")
rnd = random.Random(SEED)

src_mut = open(f"{VERIF}/tools/mutate.py").read()
ns = {"re": re}
exec(src_mut[src_mut.index("SUBS = ["):src_mut.index("def code_lines")], ns)
SUBS = ns["SUBS"]

RUN = r'''
import sys, random
sys.path.insert(0, %(verif)r + "/tools")
from vlib import common
from vlib.common import ToolError
g = %(group)r
try:
    common.build(%(pkg)r)
except ToolError:
    print("RESULT nobuild"); sys.exit()
def main():
    if g == "rt":
        from vlib import runtime
        from collections import Counter
        few = 0
        for p in ("R02","R08","R06","R03","R01","R04","R05","R07"):
            rng = random.Random(5)
            sc = [runtime.make(rng, p, f"{p}-{k}") for k in range(400)]
            tr = runtime.run(sc, "m")
            good = [t for t in tr.values() if "crash" not in t]
            if len(tr) > len(good) + 1: return f"killed crash {p} {len(tr) - len(good)}"
            acc, _, r = runtime.accepted(good, "m", timeout=150)
            rej = [good[n]["id"] for n in range(len(good)) if n not in acc and n not in r["undecided"]]
            if len(rej) >= 3: return f"killed {p}:{len(rej)}"
            few += len(rej)
        return f"SURVIVED ({few} rejected)"
    if g == "helper":
        from vlib import helper
        import os
        os.makedirs(helper.DIR, exist_ok=True)
        s = helper.generate("R07", 60, 3) + helper.generate("R08", 80, 4)
        for k, x in enumerate(s): x["id"] = k
        recs = helper.execute(s)
        bad, _ = helper.judge(recs)
        bad = {k: v for k, v in bad.items() if not any(e["late"] for e in recs[k]["events"][:v[0]] if recs[k]["cfg"]["timeout"] < 60000 and e["op"] not in ("expire", "dwell"))}
        return f"killed {len(bad)} {sorted(set(v[1] for v in bad.values()))}" if len(bad) > 1 else f"SURVIVED {bad}"
    if g == "store":
        from vlib import store
        todo = store.generate(800, 3) + store.sweep()
        recs, can = store.execute(todo, "s")
        bad, _ = store.judge(recs, "s")
        return f"killed {len(bad)} {sorted(set(v[1] for v in bad.values()))}" if bad else "SURVIVED"
    if g == "tx":
        from vlib import tx
        out = []
        for inspect in (False, True):
            recs, died = tx.execute(2 + inspect, 2400, inspect, 0)
            bad, _ = tx.judge(recs, "t")
            if bad: out.append(f"{'R11' if inspect else 'R10'} {len(bad)} {sorted(set(v[1] for v in bad.values()))}")
        return "killed " + "; ".join(out) if out else "SURVIVED"
    if g == "asm":
        from vlib import asm
        recs = asm.execute(asm.corpus(random.Random(38), 9000, False), "c")
        cr = [x for x in recs if "crash" in x]
        if cr: return f"killed crash {len(cr)}"
        bad, _ = asm.judge(recs, "j")
        return f"killed {len(bad)}" if bad else "SURVIVED"
    if g == "comp":
        from vlib import compiler
        out = []
        for p in ("C11", "C10", "C12"):
            rc = compiler.check(p)
            if rc: out.append(p); break
        return "killed " + " ".join(out) if out else "SURVIVED"
try:
    print("RESULT", main())
except Exception as e:
    print("RESULT killed (tool error)", repr(e)[:300].replace("\n", " "))
'''


def code_lines(path):
    out, src = [], open(path).read().split("\n")
    for i, l in enumerate(src):
        if re.match(r"#\[cfg\((all\()?test", l.strip()) and i + 1 < len(src) and "mod " in src[i + 1]:
            break
        s = l.strip()
        if s and not s.startswith(("//", "#", "use ", "pub use", "debug_assert", "assert", "trace!", "debug!", "warn!", "error!")):
            out.append(i)
    return src, out


def all_mutants():
    out = []
    for f in FILES:
        src, lines = code_lines(f"{BASE}/{f}")
        for i in lines:
            l = src[i]
            for pat, rep in SUBS:
                if pat == "DEL":
                    if re.match(r"^\s+[\w.:*&]+[^=]*\(.*\);$", l) or re.match(r"^\s+[\w.*\[\]]+ [|+-]?= .*;$", l):
                        out.append((f, i, l, ""))
                else:
                    for m in re.finditer(pat, l):
                        out.append((f, i, l, l[:m.start()] + rep + l[m.end():]))
    return out


ms = all_mutants()
rnd.shuffle(ms)
if os.environ.get("ONLY"):
    # Only what an earlier run's output lists.
    want = set(re.findall(r"  (\S+):(\d+)\n    - .*\n    \+ (.*)\n", open(os.environ["ONLY"]).read()))
    ms = [m for m in ms if (m[0], str(m[1] + 1), m[3].strip()) in want]
print(len(ms), "mutants", flush=True)
env = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=work)
log = open(f"{DIR}/log-{GROUP}.txt", "a")
for f, i, old, new in ms[:N]:
    src = open(f"{BASE}/{f}").read().split("\n")
    out = list(src)
    out[i] = new
    open(f"{repo}/{f}", "w").write("\n".join(out))
    try:
        p = subprocess.run([sys.executable, "-c", RUN % {"verif": VERIF, "group": GROUP, "pkg": PKG}], env=env, capture_output=True, text=True, timeout=1500)
        m = re.search(r"RESULT (.*)", p.stdout)
        res = m[1] if m else "?? " + (p.stdout + p.stderr)[-200:].replace("\n", " ")
    except subprocess.TimeoutExpired:
        res = "killed (timeout)"
    open(f"{repo}/{f}", "w").write("\n".join(src))
    t = f"{res}\n  {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}"
    print(t, file=log, flush=True)
    if not res.startswith(("killed", "nobuild")):
        print(t, flush=True)
