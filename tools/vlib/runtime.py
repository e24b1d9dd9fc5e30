"""R01-R08: histories of the real runtime, checked against spec/Runtime.tla."""
import json
import os
import random
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, TARGET, WORK, Check, ToolError, build, log, tlc

RTH = f"{TARGET}/debug/rth"


# -- scenarios ---------------------------------------------------------------------------------
# A profile says how often each operation occurs and how configurations are drawn.
BASE = dict(lookup=8, get=1, jit=3, sync=3, rel=7, quiet=5, clear=1, par=2, hold=0.1, fail=0.15)
PROFILES = {
    "R01": dict(BASE, anew=0.04, held=0.1, lookup=10, aot=2, clear=2, cbhold=1, restart=1, twins=0.8, store=0.5, budget=0.3, hold=0.3),
    "R02": dict(BASE, reload=0.06, crowd=0.25, lookup=14, jit=4, sync=2, aot=1, limits=0.8, odd=0.4, store=0.2, budget=0.3, clear=1, cbhold=1),
    "R03": dict(BASE, anew=0.03, cold=0.03, held=0.12, clear=6, jit=3, sync=4, cbhold=2, aot=1, store=0.5, restart=1, hold=0.2),
    "R04": dict(BASE, cold=0.06, reload=0.03, sync=8, block=3, jit=2, clear=3, par=5, cbhold=2, limits=0.4, fail=0.3, enable=1, disabled=0.2, blocking=0.2, restart=1, aot=1,
                store=0.3, odd=0.4, hot=0.5),
    "R05": dict(BASE, anew=0.05, held=0.15, lookup=12, hold=0.7, run=5, drop=4, clear=3, restart=2, budget=0.7, idle=0.35, store=0.3, aot=1, fail=0.1, hot=0.5),
    "R06": dict(BASE, held=0.25, crowd=0.08, lookup=14, clear=2, aot=1, store=0.3, limits=0.5, cbhold=2, fail=0.3, budget=0.4, pause=1, enable=1, par=4, block=1, odd=0.3, idle=0.1),
    "R07": dict(BASE, cold=0.06, lookup=12, enable=4, pause=4, ispaused=2, disabled=0.5, blocking=0.4, store=0.3, aot=1, restart=1, clear=1, cbhold=1, limits=0.2, odd=0.3),
    "R08": dict(BASE, anew=0.05, badstore=0.25, lookup=10, fail=0.6, sync=4, block=2, sfault=3, store=0.7, aot=3, clear=1, restart=1, hold=0.3, run=2, blocking=0.25, limits=0.3, cbhold=1),
}


def make(rng, prof, ident):
    p = PROFILES[prof]
    yes = lambda k: rng.random() < p.get(k, 0)
    cfg = {
        "thr": rng.choice([0, 1, 1, 2, 2, 3]),
        "workers": rng.choice([1, 1, 2, 3]),
        "recycle": rng.choice([1, 2, 1000]),
        "drain": rng.choice([1, 2, 64]),
        "chan": rng.choice([2, 4, 64]),
    }
    if yes("limits"):
        cfg["pend"] = rng.choice([0, 1, 1, 2, 3])
        cfg["qcap"] = rng.choice([0, 1, 1, 2])
        cfg["workers"] = rng.choice([0, 1, 1, 1, 2])
        cfg["chan"] = rng.choice([1, 1, 2, 4])
    elif rng.random() < 0.1:
        cfg["pend"] = (1 << 64) - 1
    if yes("disabled"):
        cfg["enabled"] = False
    if yes("blocking"):
        cfg["blocking"] = True
    if yes("store"):
        cfg["store"] = True
        cfg["aot"] = rng.random() < 0.4
    elif rng.random() < 0.05:
        cfg["aot"] = True
    if yes("budget"):
        cfg["budget"] = rng.choice([0, 1, 1, 2, 3])
    if yes("idle"):
        cfg["idle"] = rng.choice([25, 60])
    idle = cfg.get("idle", 0)

    keys = []
    nk = rng.choice([1, 2, 2, 3, 3, 4])
    if prof == "R02" and cfg.get("pend") == 1 and rng.random() < 0.5:
        # More cold keys than the table of observed code may hold.
        nk = 12
    for n in range(nk):
        if keys and rng.random() < p.get("twins", 0.25):
            o = rng.choice(keys)
            cand = {"code": o["code"], "fork": "h" if o["fork"] == "c" else "c", "big": o["big"]}
        else:
            cand = {"code": n + 1, "fork": rng.choice("cch"), "big": False}
            if rng.random() < p.get("odd", 0.1) * 0.5:
                if rng.random() < 0.5:
                    cand["code"] = 0
                else:
                    cand["big"] = True
        if cand["code"] and any(o == cand for o in keys):
            cand = {"code": n + 1, "fork": "c", "big": False}
        keys.append(cand)

    ops = []
    st = {"sync": 0, "cb": False, "cbops": 0, "down": False, "cleared": 0}
    hotkey = rng.randrange(nk) + 1

    def key():
        return hotkey if rng.random() < 0.5 else rng.randrange(nk) + 1

    def call(par=False):
        c = weighted(rng, {k: p.get(k, 0) for k in ("lookup", "get", "jit", "sync", "block", "clear", "aot", "enable", "pause", "ispaused")})
        if c in ("sync", "block") and st["sync"] >= 3:
            c = "jit"
        if c == "lookup":
            if cfg.get("blocking"):
                if st["sync"] >= 3:
                    return {"op": "get", "k": key()}
                st["sync"] += 1
            return {"op": "lookup", "k": key(), "hold": rng.random() < p["hold"]}
        if c == "get":
            return {"op": "get", "k": key()}
        if c == "jit":
            return {"op": "jit", "k": key()}
        if c in ("sync", "block"):
            st["sync"] += 1
            return {"op": c, "k": key(), "hold": c == "block" and rng.random() < p["hold"], "ms": rng.choice([0, 2])}
        if c == "clear":
            st["cleared"] += 1
            return {"op": "clear", "w": rng.choice(["res", "res", "all", "per"]) if cfg.get("store") else rng.choice(["res", "res", "all"])}
        if c == "aot":
            return {"op": "aot", "ks": [key() for _ in range(rng.choice([1, 1, 2]))]}
        if c == "enable":
            return {"op": "enable", "on": rng.random() < 0.5}
        if c == "pause":
            return {"op": rng.choice(["pause", "pause", "resume"])}
        return {"op": "ispaused"}

    def rel(force=None):
        v = force or ("ok" if rng.random() >= p["fail"] else rng.choice(["fail", "faillate"]))
        ops.append({"op": "rel", "n": rng.randrange(4), "v": v})
        st["sync"] = max(0, st["sync"] - 1)

    length = rng.randrange(6, 16)
    if p.get("held") and not cfg.get("blocking") and rng.random() < p["held"]:
        # Programs in place, then much arrives while the runtime is held up: observations are handled after the program they
        # are about has gone, or come back.
        cfg["drain"] = rng.choice([1, 1, 2])
        cfg["chan"] = rng.choice([4, 64])
        cfg["workers"] = rng.choice([1, 2])
        if cfg.get("pend") == 0:
            cfg["pend"] = 2
        if cfg.get("qcap") == 0:
            cfg["qcap"] = 2
        here = [rng.randrange(nk) + 1 for _ in range(rng.choice([1, 2]))]
        for k in here:
            ops += [{"op": "jit", "k": k}, {"op": "quiet"}, {"op": "relall"}, {"op": "quiet"}]
        ops += [{"op": "cbhold"}, {"op": "jit", "k": key()}, {"op": "sleep", "ms": 5}, {"op": "rel", "n": 0, "v": "ok"}, {"op": "sleep", "ms": 5}]
        for _ in range(rng.randrange(3, 7)):
            k = rng.choice(here) if rng.random() < 0.7 else key()
            if rng.random() < 0.85:
                ops.append({"op": "lookup", "k": k, "hold": rng.random() < p["hold"]})
            else:
                ops.append({"op": rng.choice(["jit", "get"]), "k": k})
        if rng.random() < 0.5:
            ops.append({"op": "clear", "w": "res"})
        ops += [{"op": "cbgo"}, {"op": "quiet"}]
        length = len(ops) + rng.randrange(2, 8)
    elif p.get("crowd") and not cfg.get("blocking") and rng.random() < p["crowd"]:
        # Several jobs under way at once, ending in any order, against a small limit.
        cfg["pend"] = rng.choice([2, 2, 3])
        cfg["qcap"] = rng.choice([2, 4])
        cfg["workers"] = rng.choice([1, 2, 3])
        cfg["chan"] = 4
        while nk < 4:
            nk += 1
            keys.append({"code": nk + 10, "fork": "c", "big": False})
        for _ in range(rng.choice([1, 2])):
            for k in rng.sample(range(1, nk + 1), min(nk, cfg["pend"] + rng.choice([0, 1]))):
                ops.append({"op": "jit", "k": k})
            ops.append({"op": "quiet"})
            for _ in range(rng.choice([1, 1, 2])):
                rel()
                ops.append({"op": "quiet"})
            for k in rng.sample(range(1, nk + 1), min(nk, 3)):
                ops.append({"op": rng.choice(["jit", "jit", "sync"]), "k": k, "ms": 0})
            ops.append({"op": "quiet"})
            ops += [{"op": "relall"}, {"op": "quiet"}]
        st["sync"] = 0
        length = len(ops) + rng.randrange(0, 6)
    elif p.get("badstore") and cfg.get("store") and rng.random() < p["badstore"]:
        # The store fails while an artifact is made, then works again; or the artifacts of an earlier run are in the way.
        if cfg.get("pend") == 0:
            cfg["pend"] = 2
        if cfg.get("qcap") == 0:
            cfg["qcap"] = 2
        if not cfg["workers"]:
            cfg["workers"] = 1
        w, k = rng.choice(["load", "load", "store", "gone", "bad"]), key()
        ops.append({"op": "sfault", "w": w, "on": True})
        if cfg.get("aot") and rng.random() < 0.5:
            ops.append({"op": "jit", "k": k})
        else:
            ops.append({"op": "aot", "ks": [k]})
        ops += [{"op": "quiet"}, {"op": "relall"}, {"op": "quiet"}]
        if rng.random() < 0.25:
            ops += [{"op": "down", "on": rng.random() < 0.5}, {"op": "up"}, {"op": "quiet"}]
        if rng.random() < 0.7:
            ops.append({"op": "sfault", "w": w, "on": False})
        for _ in range(rng.choice([1, 2])):
            c = rng.choice(["jit", "lookup", "sync", "aot"])
            if c == "aot":
                ops.append({"op": "aot", "ks": [k]})
            elif c == "lookup" and not cfg.get("blocking"):
                ops += [{"op": "lookup", "k": k, "hold": False} for _ in range(max(1, cfg["thr"]))]
            else:
                ops.append({"op": "jit" if c == "lookup" else c, "k": k, "ms": 0})
            ops += [{"op": "quiet"}, {"op": "relall"}, {"op": "quiet"}]
        length = len(ops) + rng.randrange(0, 6)
    elif p.get("cold") and rng.random() < p["cold"]:
        # Much is asked of a runtime that has not been switched on yet.
        cfg["enabled"] = False
        cfg["chan"] = rng.choice([1, 1, 2, 4])
        for _ in range(rng.randrange(1, 7)):
            c = rng.choice(["clear", "clear", "clear", "jit", "aot", "lookup", "pause"] if not cfg.get("blocking") else ["clear", "clear", "jit", "aot"])
            if c == "clear":
                ops.append({"op": "clear", "w": rng.choice(["res", "all", "per"] if cfg.get("store") else ["res", "all"])})
            elif c == "aot":
                ops.append({"op": "aot", "ks": [key()]})
            elif c == "pause":
                ops.append({"op": rng.choice(["pause", "resume"])})
            else:
                ops.append({"op": c, "k": key(), "hold": False})
        ops.append({"op": "quiet"})
        if rng.random() < 0.7:
            ops += [{"op": "enable", "on": True}, {"op": rng.choice(["jit", "sync"]), "k": key(), "ms": 0}, {"op": "quiet"}, {"op": "relall"}, {"op": "quiet"}]
        length = len(ops) + rng.randrange(0, 5)
    elif p.get("anew") and not cfg.get("blocking") and rng.random() < p["anew"]:
        # Code is compiled again and again while earlier programs of it are still held.
        cfg.update(workers=rng.choice([1, 1, 2]), chan=64, recycle=rng.choice([2, 1000, 1000]))
        cfg.pop("pend", None)
        cfg.pop("qcap", None)
        k = key()
        for _ in range(rng.choice([2, 2, 3])):
            ops += [{"op": rng.choice(["jit", "jit", "sync"]), "k": k, "ms": 0}, {"op": "quiet"}]
            rel("ok" if rng.random() < 0.8 else None)
            ops += [{"op": "quiet"}, {"op": "lookup", "k": k, "hold": rng.random() < 0.8}]
            ops += [{"op": "clear", "w": "res"}, {"op": "quiet"}]
            if rng.random() < 0.4:
                ops.append({"op": rng.choice(["run", "drop"]), "n": rng.randrange(4)})
        length = len(ops) + rng.randrange(0, 4)
    elif p.get("reload") and not cfg.get("blocking") and rng.random() < p["reload"]:
        # An artifact is loaded while the same code is being compiled, and goes again before that ends.
        cfg.update(store=True, aot=False, workers=rng.choice([1, 2]), chan=64, idle=rng.choice([25, 60]))
        cfg.pop("pend", None)
        cfg.pop("qcap", None)
        idle, k = cfg["idle"], key()
        again = lambda: {"op": rng.choice(["jit", "jit", "sync", "aot"]), "k": k, "ks": [k], "ms": 0}
        ops += [{"op": "aot", "ks": [k]}, {"op": "quiet"}, {"op": "relall"}, {"op": "quiet"}, {"op": "clear", "w": "res"}, {"op": "quiet"}]
        ops += [{"op": "jit", "k": k}, {"op": "quiet"}, {"op": "aot", "ks": [k]}, {"op": "quiet"}]
        if rng.random() < 0.7:
            ops += [{"op": "sleep", "ms": idle + 20}, {"op": "until_evicted"}]
        ops += [again(), {"op": "quiet"}]
        if rng.random() < 0.5:
            ops += [again(), {"op": "quiet"}]
        ops += [{"op": "relall"}, {"op": "quiet"}]
        length = len(ops) + rng.randrange(0, 4)
    while len(ops) < length:
        w = {k: p.get(k, 0) for k in ("rel", "quiet", "par", "run", "drop", "restart", "sfault")}
        w["call"] = sum(p.get(k, 0) for k in ("lookup", "get", "jit", "sync", "block", "clear", "aot", "enable", "pause", "ispaused"))
        w["cbhold"] = p.get("cbhold", 0) if not st["cb"] else 0
        w["burst"] = 2
        if idle:
            w["wait"] = 3
        if not cfg.get("store"):
            w["sfault"] = 0
        c = weighted(rng, w)
        if st["cb"]:
            st["cbops"] += 1
            if st["cbops"] > 4 or c in ("quiet", "restart"):
                ops.append({"op": "cbgo"})
                st["cb"] = False
        if c == "call":
            ops.append(call())
        elif c == "burst":
            # Enough misses of one key to make it hot.
            k = key()
            for _ in range(max(1, cfg["thr"])):
                ops.append({"op": "lookup", "k": k, "hold": rng.random() < p["hold"]})
                if cfg.get("blocking"):
                    st["sync"] += 1
                    if st["sync"] > 2:
                        break
            if rng.random() < 0.6 and not st["cb"]:
                ops.append({"op": "quiet"})
        elif c == "par":
            ops.append({"op": "par", "ops": [call(True) for _ in range(rng.choice([2, 2, 3]))]})
        elif c == "rel":
            rel()
            if rng.random() < 0.5 and not st["cb"]:
                ops.append({"op": "quiet"})
        elif c == "quiet":
            ops.append({"op": "quiet"})
        elif c == "cbhold":
            # Stops the runtime at its next completion.
            ops.append({"op": "cbhold"})
            st["cb"], st["cbops"] = True, 0
            ops.append({"op": rng.choice(["jit", "sync"]), "k": key(), "ms": 0})
            rel()
        elif c == "wait":
            ops.append({"op": "sleep", "ms": rng.choice([5, idle, idle + 20])})
            if rng.random() < 0.4:
                ops.append({"op": "until_evicted"})
        elif c == "run" or c == "drop":
            ops.append({"op": c, "n": rng.randrange(4)})
        elif c == "restart":
            hot = rng.random() < p.get("hot", 0.2)
            ops.append({"op": "down", "on": hot})
            if prof == "R08" and cfg.get("store") and cfg.get("enabled", True) and rng.random() < 0.5:
                ops += [{"op": "sfault", "w": "load_all", "on": True}, {"op": "up"}, {"op": "sfault", "w": "load_all", "on": False}]
            if rng.random() < 0.3:
                ops.append({"op": "run", "n": rng.randrange(4)})
            ops.append({"op": "up"})
            st["sync"] = 0
        elif c == "sfault":
            ops.append({"op": "sfault", "w": rng.choice(["load", "store", "clear", "gone", "bad"]), "on": rng.random() < 0.6})
        # Look around often enough for the search over explanations to stay small.
        loud = sum(len(o.get("ops", [0])) for o in ops[last(ops):])
        if loud >= 6 and not st["cb"]:
            ops.append({"op": "quiet"})
        if st["sync"] >= 3 and not st["cb"]:
            rel()
            if rng.random() < 0.5:
                ops.append({"op": "relall"})
                st["sync"] = 0
    return {"id": ident, "cfg": cfg, "keys": keys, "ops": ops}


def last(ops):
    """The index after the last observation point."""
    return max([n + 1 for n, o in enumerate(ops) if o["op"] == "quiet"], default=0)


def weighted(rng, w):
    t = sum(w.values())
    x = rng.random() * t
    for k, v in w.items():
        x -= v
        if x < 0:
            return k
    return [k for k, v in w.items() if v][-1]


# -- running -----------------------------------------------------------------------------------
def run(scens, tag, slow=1, procs=8, limit=240):
    """Runs scenarios on the real runtime; returns {id: trace}.  A crash yields {"crash": ...}."""
    d = f"{WORK}/rt/{tag}-{os.getpid()}-{time.time_ns()}"
    os.makedirs(d)
    end = time.time() + limit

    def one(n):
        todo = scens[n::procs]
        got = {}
        while todo and time.time() < end:
            i, o = f"{d}/in{n}.ndjson", f"{d}/out{n}.ndjson"
            with open(i, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            if os.path.exists(o):
                os.remove(o)
            e = {k: v for k, v in os.environ.items() if not k.startswith("REVMC")}
            e["PATH"] = "/usr/bin:/bin"
            try:
                p = subprocess.run(common.capped([RTH, "run", i, o, str(slow)]), env=e, capture_output=True, timeout=max(30, end - time.time()))
                rc, err = p.returncode, p.stderr[-1500:].decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            done = []
            if os.path.exists(o):
                for line in open(o):
                    try:
                        t = json.loads(line)
                    except ValueError:
                        continue
                    got[t["id"]] = t
                    done.append(t["id"])
            left = [s for s in todo if s["id"] not in done]
            if rc == 0 and not left:
                break
            if rc != 7 and left:
                # The process died, or hung, in the first unfinished scenario.
                if rc == "timeout" and time.time() >= end - 1:
                    break
                got[left[0]["id"]] = {"id": left[0]["id"], "crash": f"rc={rc} {err[-700:]}"}
                left = left[1:]
            todo = left
        return got

    out = {}
    with ThreadPoolExecutor(procs) as ex:
        for g in ex.map(one, range(procs)):
            out.update(g)
    shutil.rmtree(d, ignore_errors=True)
    return out


def prepare(t):
    c = dict(t["cfg"])
    c["nk"] = len(t["keys"])
    c["elig"] = [n + 1 for n, k in enumerate(t["keys"]) if k["code"] and not k["big"]]
    c["pend"] = min(c["pend"], 10**6)
    for k in ("qcap", "chan"):
        c[k] = min(c[k], 10**5)
    return {"cfg": c, "keys": t["keys"], "trace": t["trace"]}


def accepted(traces, tag, procs=8, diag=False, ign=None, timeout=400, but=()):
    """Which traces are behaviours of the specification (indices), how far each got, statistics."""
    d = f"{WORK}/rt"
    os.makedirs(d, exist_ok=True)
    procs = min(procs, max(1, len(traces) // 8))
    env = {"DIAG": "1"} if diag else {}
    if ign:
        env["IGN_IDX"], env["IGN"] = str(ign[0]), ign[1]
    env.update({"IGNA_" + f: "1" for f in but})

    def one(n):
        part = list(range(n, len(traces), procs))
        path = f"{d}/{tag}-{os.getpid()}-{time.time_ns()}-{n}.json"
        with open(path, "w") as f:
            json.dump([prepare(traces[k]) for k in part], f)
        r = tlc("RuntimeTrace", env=dict(env, TRACES=path), workers=1, timeout=timeout, heap="3g", deque=True)
        os.remove(path)
        if r["violated"]:
            raise ToolError(f"Runtime.tla breaks its own invariant {r['violated']}:\n" + r["out"][-3000:])
        if r["rc"] is not None and not r["ok"] and "Error" in r["out"]:
            raise ToolError("TLC on RuntimeTrace:\n" + r["out"][-3000:])
        acc = {part[int(x) - 1] for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r["out"])}
        reach = {}
        for a, b in re.findall(r'<<"REACHED", (\d+), (\d+)>>', r["out"]):
            reach[part[int(a) - 1]] = max(int(b), reach.get(part[int(a) - 1], 0))
        return acc, reach, r, set() if r["rc"] is not None else set(part) - acc

    acc, reach, states, distinct, open_ = set(), {}, 0, 0, set()
    with ThreadPoolExecutor(procs) as ex:
        for a, b, r, o in ex.map(one, range(procs)):
            acc |= a
            reach.update(b)
            states += r["states"]
            distinct += r["distinct"]
            open_ |= o
    return acc, reach, {"states": states, "distinct": distinct, "undecided": open_}


FIELDS = {
    "quiet": ["open", "gates", "store", "live", "res", "alive", "enabled", "paused", "hits", "misses", "dropped", "cdropped", "evict", "disp", "succ", "fail",
              "resident", "pending", "cmdq", "evq", "units", "stats", "code", "plive", "kind"],
    "ret": ["d", "code", "plive", "kind"],
    "run": ["code", "plive", "kind"],
    "build": ["build"],
    "cb": ["cb"],
    "evicted": ["evicted"],
    "end": ["stuck", "live"],
}


def diagnose(t, tag, but=()):
    """Where a rejected trace stops being explainable, and in which respects."""
    acc, reach, r = accepted([t], tag + "-d", diag=True, timeout=100, but=but)
    if 0 in acc or r["undecided"]:
        return None, set()
    i = reach.get(0, 1)
    e = t["trace"][i - 1]
    names = [f for f in FIELDS.get(e["e"], []) if f not in but]

    def without(f):
        a, r, _ = accepted([t], f"{tag}-{f}", diag=True, ign=(i, f), timeout=60, but=but)
        return f if 0 in a or r.get(0, 0) > i else None

    with ThreadPoolExecutor(6) as ex:
        bad = {f for f in ex.map(without, names) if f}
    if not bad and e["e"] == "quiet" and not STAT <= set(but):
        # Perhaps the counters and one thing more.
        j, more = diagnose(t, tag, set(but) | STAT)
        if j == i and "many" not in more:
            bad = more | {"stats"}
        elif j is not None and j > i:
            bad = {"stats"}
    if not bad:
        bad = {"many"} if e["e"] not in ("build", "cb") else {e["e"]}
    return i, bad


STAT = {"hits", "misses", "dropped", "cdropped", "evict", "disp", "succ", "fail", "resident", "pending", "cmdq", "evq", "units", "stats"}


def blame(t, i, bad):
    """The properties a rejection at event i in respects `bad` speaks about."""
    tr = t["trace"][:i]
    e = t["trace"][i - 1]
    cfg = t["cfg"]
    ops = {x["op"] for x in tr if x["e"] == "call"}
    ctx = set()
    if "clear" in ops:
        ctx.add("R03")
    if ops & {"sync", "block"} or cfg["blocking"]:
        ctx.add("R04")
    if ops & {"enable", "pause", "resume"} or cfg["blocking"] or not cfg["enabled"]:
        ctx.add("R07")
    if any(x["e"] == "rel" and x["v"] != "ok" for x in tr) or any(x["e"] == "sfault" for x in tr):
        ctx.add("R08")
    if cfg["store"]:
        ctx.add("R09")
    out = set()
    for f in bad:
        if f in STAT:
            out.add("R06")
            if f in ("disp", "evict", "resident", "succ"):
                out |= {"R02"} | ctx
        elif f == "code":
            out |= {"R01"} | (ctx & {"R03", "R09"})
        elif f in ("live", "plive"):
            out.add("R05")
        elif f == "kind":
            out |= {"R01", "R02", "R09"} & ({"R01", "R02"} | ctx)
        elif f == "stuck":
            out |= {"R04"} | (ctx & {"R03", "R07", "R08"})
        elif f == "alive":
            out |= {"R04", "R08"}
        elif f == "open":
            out |= {"R04"} | (ctx & {"R03", "R07", "R08"})
        elif f == "store":
            out |= {"R09"} | (ctx & {"R03", "R08"})
        elif f in ("enabled", "paused"):
            out |= {"R07"}
        elif f == "evicted":
            out |= {"R02", "R05"}
        else:
            out |= {"R01", "R02"} | ctx
    if "fail" in bad or (e["e"] == "cb" and not e["ok"]):
        out.add("R08")
    if not out or bad == {"many"}:
        out |= {"R01", "R02", "R05", "R06"} | ctx
        if e.get("open"):
            out.add("R04")
    if e["e"] in ("run",):
        out.add("R05")
    return out


# Rejections that no delay of the machine can explain.
TIMELESS = {"code", "plive", "kind"}


def judge(chk, scens, prop, tag, first=False):
    """Runs scenarios, checks the histories, confirms rejections, reports violations of prop."""
    t0 = time.time()
    traces = run(scens, tag)
    by = {s["id"]: s for s in scens}
    missing = [s["id"] for s in scens if s["id"] not in traces]
    if missing:
        log(f"{len(missing)} scenarios did not get to run")
        if len(traces) < 24:
            raise ToolError("most scenarios did not run")
    log(f"{len(traces)} histories recorded in {time.time() - t0:.1f} s")
    good = [t for t in traces.values() if "crash" not in t]
    rejected = [t["id"] for t in traces.values() if "crash" in t]
    ev = 0
    for lo in range(0, len(good), 400):
        part = good[lo:lo + 400]
        acc, _, r = accepted(part, tag, timeout=150)
        chk.add("states", r["distinct"])
        chk.add("transitions", r["states"])
        und = set()
        if r["undecided"]:
            # One history with too many candidate explanations holds up those behind it.
            left = sorted(r["undecided"])
            with ThreadPoolExecutor(8) as ex:
                for n, (a, _, q) in zip(left, ex.map(lambda n: accepted([part[n]], tag, timeout=40), left)):
                    if a:
                        acc.add(n)
                    elif q["undecided"]:
                        und.add(n)
            chk.add("undecided", len(und))
        rejected += [t["id"] for n, t in enumerate(part) if n not in acc and n not in und]
    for t in good:
        ev += len(t["trace"])
        for e in t["trace"]:
            chk.cov.setdefault("events", {})
            k = e["e"] + (":" + e["op"] if e["e"] == "call" else "")
            chk.cov["events"][k] = chk.cov["events"].get(k, 0) + 1
    chk.add("traces_validated_against_impl", len(good) - len([x for x in rejected if "crash" not in traces[x]]))
    chk.add("observations", ev)
    for t in good[:3]:
        chk.sample({"scenario": by[t["id"]]["ops"][:8], "events": len(t["trace"])}, 3)
    log(f"{len(good) - len([x for x in rejected if 'crash' not in traces[x]])} histories are the specification's, {len(rejected)} are not")
    if first and len(rejected) < len(good) // 4:
        vacuity(chk, [t for t in good if t["id"] not in rejected], tag)
    settle(chk, by, traces, rejected, prop, tag)


AGAIN = (4, 4, 4, 10, 10, 10)


def settle(chk, by, traces, rejected, prop, tag):
    """Which rejections stand: a slow machine may make a history look impossible."""
    seen, t0 = 0, time.time()
    allowed = max(0, 330 - SPENT[0]) if common.TIER == "quick" else 1200
    try:
        return settle_(chk, by, traces, rejected, prop, tag, t0, allowed)
    finally:
        SPENT[0] += time.time() - t0


SPENT = [0.0]


def settle_(chk, by, traces, rejected, prop, tag, t0, allowed):
    seen = 0
    for sid in [x for x in rejected if "crash" in traces[x]][:6]:
        if seen >= 3:
            break
        got = recrash(by[sid], traces[sid], tag)
        if got:
            seen += 1
            chk.violation("crash", f"the process died: {got['crash'][:400]}", {"kind": "rt-scenario", "scenario": by[sid], "why": "crash", "trace": got})
    todo = [x for x in rejected if "crash" not in traces[x]]
    for lo in [0] + list(range(4, min(len(todo), 52), 12)):
        if seen >= 3 or time.time() - t0 > (40 if seen else allowed * 2 / 3) or not todo:
            return
        part = todo[lo:lo + (12 if lo else 4)]
        reruns = {x: [] for x in part}
        for slow in sorted(set(AGAIN)):
            scens = [dict(by[x], id=f"{x}#{n}") for x in part for n in range(AGAIN.count(slow))]
            got = [t for t in run(scens, tag + "-c", slow, limit=100).values() if "crash" not in t]
            acc, _, r = accepted(got, tag + "-c", timeout=100)
            for n, t in enumerate(got):
                if n not in acc and n not in r["undecided"]:
                    reruns[t["id"].split("#")[0]].append(t)
        stands = [x for x in part if len(reruns[x]) >= 2]
        # Wrong or freed code is no matter of time.
        other = [x for x in part if x not in stands]
        with ThreadPoolExecutor(4) as ex:
            why = list(ex.map(lambda x: diagnose(traces[x], tag), other))
        for x, (i, bad) in zip(other, why):
            if i is None:
                continue
            if bad & TIMELESS and prop in blame(traces[x], i, bad):
                seen += 1
                chk.violation("+".join(sorted(bad)), describe(traces[x], i, bad), {"kind": "rt-scenario", "scenario": by[x], "why": describe(traces[x], i, bad), "trace": traces[x]["trace"]})
                continue
            log("unconfirmed rejection of", x, "at event", i, bad, f"seen again {len(reruns[x])} of {len(AGAIN)} times")
            with open(f"{WORK}/rt/unconfirmed-{x}.json", "w") as f:
                json.dump({"scenario": by[x], "trace": traces[x]}, f)
        for x in stands:
            if seen >= 3 or time.time() - t0 > (40 if seen else allowed):
                return
            hit = None
            for t in reruns[x][:2]:
                # What is wrong first may hide what this property is about.
                but, worth = set(), True
                while worth and not hit:
                    i, bad = diagnose(t, tag, but)
                    if i is not None and prop in blame(t, i, bad):
                        hit = (t, i, bad)
                    worth = i is not None and len(but) < 12 and not bad & {"many", "d", "code", "plive"} and bad - but
                    but |= bad
                if hit:
                    break
            if not hit:
                log("rejected, but not about", prop, x, i, bad, json.dumps(t["trace"][(i or 1) - 1])[:200])
                continue
            t, i, bad = hit
            seen += 1
            chk.violation("+".join(sorted(bad)), describe(t, i, bad), {"kind": "rt-scenario", "scenario": by[x], "why": describe(t, i, bad), "trace": t["trace"]})


def recrash(s, t, tag):
    """The process died; does it again?"""
    for slow in (1, 3):
        a = run([dict(s)], f"{tag}-c", slow, procs=1, limit=120).get(s["id"], {"crash": "no answer"})
        if "crash" in a:
            return a
    log("unconfirmed crash in", s["id"], t["crash"][:200])
    return None


def corrupt(rng, t):
    """A copy of a history with one observation falsified, or None."""
    t = json.loads(json.dumps(t))
    ev = [e for e in t["trace"] if e["e"] in ("quiet", "ret", "build", "end")]
    rng.shuffle(ev)
    for e in ev:
        if e["e"] == "quiet" and e.get("stats") and e.get("alive"):
            w = rng.choice(["hits", "misses", "dropped", "evict", "disp", "succ", "fail", "resident", "pending", "live", "res", "store"])
            if w == "live":
                e["live"] += 1
            elif w == "res":
                n = [x for x in range(len(e["res"])) if e["res"][x]["pid"]]
                if not n:
                    continue
                e["res"][n[0]]["fork"] = "h" if e["res"][n[0]]["fork"] == "c" else "c"
            elif w == "store":
                k = rng.randrange(len(t["keys"])) + 1
                e["store"] = [x for x in e["store"] if x != k] if k in e["store"] else e["store"] + [k]
            elif w in e["stats"]:
                e["stats"][w] += 1
            else:
                continue
            return t
        if e["e"] == "ret" and e["op"] == "lookup" and e["d"] == "compiled" and e.get("p"):
            e["p"]["code"] += 1
            return t
        if e["e"] == "ret" and e["op"] == "get":
            e["d"] = "failed"
            return t
        if e["e"] == "end":
            e["live"] += 1
            return t
    return None


def vacuity(chk, good, tag):
    """The specification must reject histories with one falsified observation."""
    rng = random.Random(SEED)
    bad = [c for c in (corrupt(rng, t) for t in sorted(good, key=lambda t: len(t["trace"]))[8:56:2]) if c]
    acc, _, r = accepted(bad, tag + "-v", timeout=60)
    chk.add("corrupted_histories_rejected", len(bad) - len(acc) - len(r["undecided"]))
    if len(acc) > len(bad) // 8:
        raise ToolError(f"{len(acc)} of {len(bad)} corrupted histories were accepted")


def describe(t, i, bad):
    return f"scenario {t['id']}: event {i} ({json.dumps(t['trace'][i - 1])[:500]}) is impossible in respect of {', '.join(sorted(bad))}"


N = {"R01": 1400, "R02": 1600, "R03": 1600, "R04": 1600, "R05": 1400, "R06": 1600, "R07": 1400, "R08": 1400}


MC = {"R01": ["plain", "mixed"], "R02": ["tight", "hot", "two", "budget"], "R03": ["two", "mixed", "store"], "R04": ["plain", "tight", "block", "modes"],
      "R05": ["budget", "hot"], "R06": ["tight", "two", "modes"], "R07": ["modes", "block"], "R08": ["store", "mixed", "block"]}


def explore(chk, prop, thorough):
    """The design: every interleaving of a few calls, exhaustively."""
    cfg = open(f"{common.SPEC}/RuntimeMC.cfg").read()
    runs = [(MC[prop], 2, True)]
    if thorough:
        runs = [(MC[prop], 3, True)] + [([x], 4, False) for x in MC[prop] if x in ("modes", "mixed", "block", "hot", "two")]
    for sel, calls, live in runs:
        text = re.sub(r"Select = .*", "Select = {" + ", ".join(f'"{x}"' for x in sel) + "}", cfg)
        text = re.sub(r"MaxCalls = .*", f"MaxCalls = {calls}", text)
        if not live:
            text = text.replace("PROPERTIES Answered\n", "")
        os.makedirs(f"{WORK}/rt", exist_ok=True)
        path = f"{WORK}/rt/mc-{os.getpid()}.cfg"
        with open(path, "w") as f:
            f.write(text)
        r = tlc("RuntimeMC", cfg=path, workers=8, timeout=3000 if thorough else 200, heap="12g")
        os.remove(path)
        if r["violated"]:
            raise ToolError(f"the specification breaks {r['violated']}:\n" + r["out"][-3000:])
        if not r["ok"] and r["rc"] is not None:
            raise ToolError("TLC on RuntimeMC:\n" + r["out"][-2000:])
        chk.add("states", r["distinct"])
        chk.add("transitions", r["states"])
        log(f"model: {sel} with {calls} calls: {r['distinct']} states, {r['states']} transitions" + ("" if r["ok"] else " (not finished)"))


def check(prop):
    thorough = common.TIER == "thorough"
    chk = Check(prop, "model_checking")
    chk.assumptions += [
        "Compilations end when and how the harness says (a stand-in code generator, fake-llvm, takes LLVM's place); everything else is the real runtime on real threads.",
        "The model (RuntimeMC) is exhaustive only up to the stated number of calls; recorded histories are random.",
        "A rejected history counts only if the scenario is rejected again with all waits lengthened (or shows wrong or freed code).",
    ]
    build(*(("rth", "helph") if prop in ("R07", "R08") else ("rth",)))
    explore(chk, prop, thorough)
    n = N[prop] * (8 if thorough else 1)
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    scens = [make(rng, prop, f"{prop}-{k}") for k in range(n)]
    for lo in range(0, n, 800):
        judge(chk, scens[lo:lo + 800], prop, prop, lo == 0)
        if chk.bad:
            break
    if prop in ("R07", "R08") and not chk.bad:
        from . import helper
        helper.run(chk, prop, (160 if prop == "R07" else 200) * (10 if thorough else 1), 9 if thorough else 7)
    return chk.finish()
