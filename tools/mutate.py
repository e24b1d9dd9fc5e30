"""mutate.py DIR N SEED FILE...: random small edits of the repository's sources, to see what the EVM harness notices.

Works in scratch copies under DIR only. Development aid: no check uses it.
"""
import json
import os
import random
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:]
PROPS = os.environ.get("PROPS", "C01 C02 C03 C04 C05 C06 C07 C08 C09").split()
COUNT = os.environ.get("COUNT", "6000")
JOBS = os.environ.get("JOBS", "4")
rnd = random.Random(SEED)
os.makedirs(DIR, exist_ok=True)
repo, work = f"{DIR}/repo", f"{DIR}/work"
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"]) if subprocess.run(["which", "rsync"], capture_output=True).returncode == 0 else subprocess.run(f"mkdir -p {repo} && cd /repo && git archive HEAD | tar x -C {repo}", shell=True, check=True)
env = dict(os.environ, VERIF_REPO=repo, VERIF_WS=f"{work}/ws", CARGO_TARGET_DIR=f"{work}/target", HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS=JOBS)
env["PATH"] = "/root/.cargo/bin:" + env["PATH"]

SUBS = [
    (r"(?<![<=>!-])<(?![<=])(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>=(?= )", ">"), (r"(?<= )>(?= )", ">="),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b32\b", "31"), (r"\b31\b", "32"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"if !", "if "), (r"\bif (?!let|!)", "if !"),
    (r"\bcontinue;", ""), (r"\breturn;", ""), (r"\bbreak;", ""), (r"\|= ", "= "), (r"\+= ", "-= "), (r"-= ", "+= "),
    (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "wrapping_add"), (r"checked_", "wrapping_"),
    (r"\.rev\(\)", ""), (r"is_some\(\)", "is_none()"), (r"\.contains\(", ".is_empty() || !core::convert::identity("),
    ("DEL", ""),
]


def code_lines(path):
    """Line numbers outside test modules and comments."""
    out, src = [], open(path).read().split("\n")
    for i, l in enumerate(src):
        if re.match(r"#\[cfg\(test\)\]", l.strip()) and i + 1 < len(src) and "mod " in src[i + 1]:
            break
        s = l.strip()
        if s and not s.startswith(("//", "#", "use ", "pub use", "debug_assert", "assert", "trace!", "debug!")):
            out.append(i)
    return src, out


def mutant():
    while True:
        f = rnd.choice(FILES)
        src, lines = code_lines(f"/repo/{f}")
        i = rnd.choice(lines)
        pat, rep = rnd.choice(SUBS)
        l = src[i]
        if pat == "DEL":
            if not re.match(r"^\s+[\w.:*&]+[^=]*\(.*\);$", l) and not re.match(r"^\s+[\w.*\[\]]+ [|+-]?= .*;$", l):
                continue
            new = ""
        else:
            ms = list(re.finditer(pat, l))
            if not ms:
                continue
            m = rnd.choice(ms)
            new = l[:m.start()] + rep + l[m.end():]
        return f, i, l, new, src


def sh(cmd, timeout):
    try:
        return subprocess.run(cmd, cwd=f"{work}/ws", env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


seen = set()
log = open(f"{DIR}/log.txt", "a")
for k in range(N):
    while True:
        f, i, old, new, src = mutant()
        if (f, i, new) not in seen:
            break
    seen.add((f, i, new))
    out = list(src)
    out[i] = new
    open(f"{repo}/{f}", "w").write("\n".join(out))
    subprocess.run([sys.executable, f"{VERIF}/tools/shadow.py"], env=env, check=True)
    b = sh(["cargo", "build", "-p", "evmh", "--offline"], 600)
    res = "nobuild"
    if b and b.returncode == 0:
        res = "SURVIVED"
        for p in PROPS:
            r = sh([f"{work}/target/debug/evmh", "batch", "--prop", p, "--seed", "7", "--count", COUNT, "--secs", "90", "--every", "0", "--stop-after", "1", "--jobs", JOBS, "--out", f"{DIR}/o"], 200)
            st = json.load(open(f"{DIR}/o/stats.json")) if r and r.returncode == 0 else None
            if not st or st["mismatches"] or st["crashes"]:
                res = f"killed by {p}"
                break
    open(f"{repo}/{f}", "w").write("\n".join(src))
    print(f"{res:16} {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}", file=log if res != "SURVIVED" else log, flush=True)
    if res == "SURVIVED":
        print(f"{res} {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}", flush=True)
