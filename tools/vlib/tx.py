"""R10, R11: transactions through the repository's executors, judged by Tx.tla."""
import json
import os
import random
import re
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, SPEC, TARGET, WORK, Check, ToolError, build, log, tlc

TXH = f"{TARGET}/debug/txh"
DIR = f"{WORK}/tx"
TOLD = ("told", "logs")


def model(chk, told):
    for cached, forget, want in (("TRUE", "TRUE", None), ("FALSE", "TRUE", "SameEngine"), ("TRUE", "FALSE", "RightFork")):
        cfg = f"{DIR}/mc-{os.getpid()}.cfg"
        text = open(f"{SPEC}/TxMC.cfg").read()
        for k, v in (("MaxTold", told), ("Cached", cached), ("Forget", forget)):
            text = re.sub(rf"{k} = .*", f"{k} = {v}", text)
        with open(cfg, "w") as f:
            f.write(text)
        r = tlc("TxMC", cfg=cfg, workers=8, timeout=1500, heap="12g")
        os.remove(cfg)
        if want is None:
            if not r["ok"]:
                raise ToolError("TxMC:\n" + r["out"][-2500:])
            chk.add("states", r["distinct"])
            chk.add("transitions", r["states"])
            log(f"model: {r['distinct']} states")
        elif r["violated"] != want:
            raise ToolError(f"TxMC: {want} should fail without the safeguard")


def execute(seed, count, inspect, start=0, procs=8):
    """Every world's record; {index: why} of those whose process died."""
    extra = ["inspect"] if inspect else []

    def one(n):
        at, got, dead = start + n, [], {}
        while at < start + count:
            p = subprocess.Popen(common.capped([TXH, "run", str(seed), str(at), str(procs), str(start + count)] + extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            err, last, stuck = [], [common.time.time()], [False]
            th = threading.Thread(target=lambda: err.append(p.stderr.read()))
            th.start()

            def watch():
                while p.poll() is None:
                    if common.time.time() - last[0] > 90:
                        stuck[0] = True
                        p.kill()
                    common.time.sleep(0.3)
            w = threading.Thread(target=watch)
            w.start()
            cur, done = at, False
            for line in p.stdout:
                last[0] = common.time.time()
                if line[0] == "S":
                    cur = int(line[2:])
                elif line[0] == "R":
                    got.append(dict(json.loads(line[2:]), died=False))
                elif line[0] == "D":
                    done = True
            p.wait()
            th.join()
            w.join()
            if done:
                break
            m = re.search(r"panicked at (.*\n.*)", err[0])
            dead[cur] = "no result in 90 s" if stuck[0] else f"exit {p.returncode}: {(m[1] if m else err[0][-300:])}"
            if len(dead) > (1 if stuck[0] else 5):
                break
            at = cur + procs
        return got, dead

    recs, died = [], {}
    with ThreadPoolExecutor(procs) as ex:
        for g, d in ex.map(one, range(procs)):
            recs += g
            died.update(d)
    for i in died:
        recs.append({"i": i, "mode": "", "fork": "", "probed": False, "strict": False, "known": False, "died": True, "txs": []})
    recs.sort(key=lambda r: r["i"])
    return recs, died


def judge(recs, tag):
    os.makedirs(DIR, exist_ok=True)

    def one(n):
        idx = list(range(n, len(recs), 8))
        if not idx:
            return {}, 0
        path = f"{DIR}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump([recs[k] for k in idx], f)
        r = tlc("TxTrace", env={"TRACES": path}, workers=1, heap="3g", timeout=800, jvm=["-Xss256m"])
        os.remove(path)
        if not r["ok"]:
            raise ToolError("TLC on TxTrace:\n" + r["out"][-3000:])
        return {idx[int(a) - 1]: (int(b), c) for a, b, c in re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"\s*>>', r["out"])}, r["distinct"]

    bad, states = {}, 0
    with ThreadPoolExecutor(8) as ex:
        for b, s in ex.map(one, range(8)):
            bad.update(b)
            states += s
    return bad, states


def falsify(rng, recs):
    out = []
    cand = [r for r in recs if r["txs"]]
    for r in rng.sample(cand, min(120, len(cand))):
        r = json.loads(json.dumps(r))
        j = rng.choice(r["txs"])["jit"]
        c = rng.randrange(7)
        runs = [e for e in j["ev"] if e["t"] == "run"]
        if c == 0:
            j["out"] = "x"
        elif c == 1:
            j["db"] = "x"
        elif c == 2 and r["probed"] and j["ev"]:
            e = rng.choice([e for e in j["ev"] if e["t"] != "run"])
            e["x"] = "x"
        elif c == 3 and r["probed"] and len(runs) > 2 and j["ev"][-1]["t"] != "rest":
            # The outermost frame, which runs first and last.
            runs[-1]["e"] = "I" if runs[0]["e"] == "C" else "C"
        elif c == 4 and j["told"]:
            j["told"] = j["told"][:-1]
        elif c == 5 and j["told"]:
            rng.choice([e for e in j["told"] if e["t"] in ("start", "end")])["x"] = "x"
        elif c == 6:
            r["died"] = True
        else:
            continue
        out.append(r)
    return out


def check(prop):
    os.makedirs(DIR, exist_ok=True)
    thorough = common.TIER == "thorough"
    chk = Check(prop, "model_checking")
    chk.assumptions += [
        "Plain revm, from an equal state, says what a transaction does; compiled and interpreted code need not tell halts apart, nor agree on logs made in a frame that halts.",
        "Worlds of up to seven contracts that call, create and destroy one another, two to six transactions; version changes, database errors, delegation, access lists, system calls and inspectors that replace outcomes among them.",
    ]
    build("txh")
    model(chk, 8 if thorough else 6)
    inspect = prop == "R11"
    seed = SEED * 2 + inspect
    count, step, start = (120_000 if thorough else 2_400), 2_400, 0
    while start < count:
        recs, died = execute(seed, step, inspect, start)
        txs = sum(len(r["txs"]) for r in recs)
        runs = {e: sum(x["e"] == e for r in recs for t in r["txs"] for x in t["jit"]["ev"] if x["t"] == "run") for e in "CI"}
        told = sum(len(t["jit"]["told"]) for r in recs for t in r["txs"])
        log(f"{len(recs)} worlds, {txs} transactions; frames run compiled {runs['C']}, interpreted {runs['I']}; {told} events told")
        if not died and (runs["C"] < 5000 or runs["I"] < 5000 or inspect and told < 5000):
            raise ToolError("too little happened")
        fake = falsify(random.Random(SEED + start), recs)
        bad, st = judge(recs + fake, "t")
        missed = [fake[k - len(recs)]["i"] for k in range(len(recs), len(recs) + len(fake)) if k not in bad]
        if missed and not any(k < len(recs) for k in bad):
            raise ToolError(f"{len(missed)} of {len(fake)} falsified records were accepted: {missed[:5]}")
        if any(bad[k][1] == "model" for k in bad if k < len(recs)) and all(bad[k][1] == "model" for k in bad if k < len(recs)):
            raise ToolError("plain revm is not a behaviour of Tx.tla: " + str([recs[k]["i"] for k in bad if k < len(recs) and bad[k][1] == "model"][:5]))
        chk.add("states", st)
        chk.add("traces_validated_against_impl", len(recs))
        chk.add("transactions", txs)
        chk.add("frames_run_compiled", runs["C"])
        chk.add("frames_run_interpreted", runs["I"])
        chk.add("inspector_events", told)
        chk.add("falsified_records_rejected", len(fake))
        r = recs[5]
        chk.sample({"seed": seed, "index": r["i"], "mode": r["mode"], "fork": r["fork"], "classes": [t["jit"]["class"] for t in r["txs"]]}, 4)
        for k in sorted(k for k in bad if k < len(recs)):
            at, what = bad[k]
            r = recs[k]
            mine = what in TOLD if inspect else what not in TOLD
            if not mine and what != "died":
                log("outside this property:", r["i"], what)
                continue
            if len(chk.bad) >= 3:
                continue
            chk.violation(what, f"world {r['i']} ({r['mode']}, {r['fork']}), transaction {at}: {what} {died.get(r['i'], '')}"[:500],
                          {"kind": "tx", "seed": seed, "index": r["i"], "inspect": inspect, "tx": at, "what": what, "why": died.get(r["i"], "")})
        start += step
    return chk.finish()
