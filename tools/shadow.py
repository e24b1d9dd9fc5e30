"""Generates the workspace the harness is built in: /verif/work/ws.

The repository's crates are copied from /repo (a file is rewritten only when its contents differ, so
cargo rebuilds exactly what changed, whatever the timestamps in /repo are), revmc-llvm is replaced by
/verif/fake-llvm, and the harness crates of /verif/harness are added as members.
"""
import glob
import os
import shutil
import sys
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_WS", f"{VERIF}/work/ws")

CRATES = [
    "revmc", "revmc-backend", "revmc-build", "revmc-builtins", "revmc-codegen", "revmc-context",
    "revmc-runtime",
]


def dump(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(dump, v)) + "]"
    return "{ " + ", ".join(f"{dump(k)} = {dump(x)}" for k, x in v.items()) + " }"


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def toml(path, data):
    put(path, "".join(f"{dump(k)} = {dump(v)}\n" for k, v in data.items()))


def sync(src, dst, keep=()):
    """Makes dst hold what src holds (except build output and `keep`)."""
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in ("target", ".git") and n not in keep}
    for n in set(os.listdir(dst)) - want - set(keep):
        p = f"{dst}/{n}"
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for n in want:
        s, d = f"{src}/{n}", f"{dst}/{n}"
        if os.path.isdir(s):
            if os.path.isfile(d):
                os.remove(d)
            sync(s, d)
        else:
            with open(s, "rb") as f:
                put(d, f.read())


def main():
    top = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    ws = top["workspace"]
    ws.pop("default-members", None)
    ws.pop("exclude", None)
    harness = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(f"{VERIF}/harness/*/Cargo.toml"))
    ws["members"] = [f"crates/{c}" for c in CRATES] + ["crates/revmc-llvm"] + [f"harness/{h}" for h in harness]
    # Quick to rebuild; the interpreter and everything outside the repository optimised.
    top["profile"] = {
        "dev": {
            "opt-level": 1,
            "debug": 0,
            "incremental": True,
            "package": {
                "*": {"opt-level": 3, "debug-assertions": False},
                "revmc-llvm": {"opt-level": 3},
            },
        }
    }
    toml(f"{OUT}/Cargo.toml", top)
    for c in CRATES:
        src, dst = f"{REPO}/crates/{c}", f"{OUT}/crates/{c}"
        m = tomllib.load(open(f"{src}/Cargo.toml", "rb"))
        for kind in ("dev-dependencies",):
            m.get(kind, {}).pop("revmc-statetest", None)
        m.pop("bench", None)
        if c == "revmc":
            m.setdefault("lib", {})["test"] = False
        sync(src, dst, keep=("Cargo.toml",))
        toml(f"{dst}/Cargo.toml", m)
    sync(f"{VERIF}/fake-llvm", f"{OUT}/crates/revmc-llvm")
    for h in harness:
        sync(f"{VERIF}/harness/{h}", f"{OUT}/harness/{h}")
    sync(f"{REPO}/data", f"{OUT}/data")
    if not os.path.exists(f"{OUT}/Cargo.lock"):
        shutil.copyfile(f"{REPO}/Cargo.lock", f"{OUT}/Cargo.lock")
    return 0


if __name__ == "__main__":
    sys.exit(main())
