"""Shared by every check: building from /repo, running TLC, evidence, verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", f"{VERIF}/work")
WS = f"{WORK}/ws"
TARGET = f"{WORK}/target"
SPEC = f"{VERIF}/spec"
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class ToolError(Exception):
    """The check itself could not run: no verdict."""


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def cargo_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUSTFLAGS"))}
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=TARGET,
        VERIF_WS=WS,
    )
    return e


def build(*pkgs):
    """Brings the harness up to date with /repo's working tree."""
    p = subprocess.run([sys.executable, f"{VERIF}/tools/shadow.py"], env=cargo_env(), capture_output=True, text=True)
    if p.returncode:
        raise ToolError("shadow workspace: " + p.stderr[-2000:])
    cmd = ["cargo", "build", "--offline"] + [x for k in pkgs for x in ("-p", k)]
    p = subprocess.run(cmd, cwd=WS, env=cargo_env(), capture_output=True, text=True)
    if p.returncode:
        raise ToolError("harness does not build against /repo:\n" + p.stderr[-6000:])
    java()
    log("built", *pkgs)


def java():
    """Compiles the operator overrides TLC loads."""
    out = f"{WORK}/java"
    srcs = [f"{SPEC}/java/{n}" for n in sorted(os.listdir(f"{SPEC}/java")) if n.endswith(".java")]
    stamp = f"{out}/stamp"
    want = "".join(open(s).read() for s in srcs)
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", out] + srcs, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("javac: " + p.stderr[-2000:])
    with open(stamp, "w") as f:
        f.write(want)


def capped(cmd):
    """The command with a limit on its memory, so that a runaway of the code under test ends only itself."""
    return ["prlimit", "--as=6000000000"] + cmd


def tlc(module, cfg=None, env=None, args=(), workers=8, timeout=300, heap="6g", deque=False, jvm=()):
    """Runs TLC; returns its output and {states, distinct, depth, ok, violated}."""
    scratch = f"{WORK}/tlc/{module}-{os.getpid()}-{time.time_ns()}"
    os.makedirs(scratch, exist_ok=True)
    cp = f"{WORK}/java:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Djava.io.tmpdir={scratch}", "-Dfile.encoding=UTF-8", *jvm]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", cp, "tlc2.TLC", "-nowarning", "-noTE", "-workers", str(workers), "-metadir", f"{scratch}/meta"]
    cmd += ["-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
        rc = None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    r = {"rc": rc, "out": out, "states": 0, "distinct": 0, "depth": 0, "ok": rc == 0, "violated": None}
    m = re.findall(r"([\d,]+) states generated(?:[^,\n]*), ([\d,]+) distinct states found", out)
    if m:
        r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"([\d,]+) states checked", out) or re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            r["states"] = r["distinct"] = int(m[-1].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m[1])
    m = re.search(r"(?:Invariant|Action property|Temporal properties|Property) ?(\S*) (?:is|was|were) violated", out)
    if m:
        r["violated"] = m[1] or "temporal property"
    return r


def findings():
    """Open entries of known-findings.txt: [(property, key, text)]."""
    out = []
    try:
        for line in open(f"{VERIF}/known-findings.txt"):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m[1], m[2], m[3]))
    except OSError:
        pass
    return out


class Check:
    """Collects what a check saw and ends it."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {"samples": []}
        self.assumptions = []
        self.bad = []
        self.known = []

    def sample(self, x, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, key, text, replay):
        """A violation; `key` identifies the failing input, call site or history."""
        for p, k, t in findings():
            if p == self.prop and k == key:
                if key not in self.known:
                    self.known.append(key)
                    print(f"KNOWN-FINDING: property={p} {t}", flush=True)
                return
        if len(self.bad) >= 5:
            self.bad.append(None)
            return
        d = f"{WORK}/replay"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.prop}-{len(self.bad)}.json"
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.bad.append(path)
        log("violation:", key, text)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def finish(self):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": "thorough" if TIER == "thorough" else "quick",
            "seed": SEED,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - T0, 2),
            "violations": len(self.bad),
        }
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        log("done:", "violated" if self.bad else "held", {k: v for k, v in self.cov.items() if isinstance(v, (int, float))})
        return 1 if self.bad else 0
