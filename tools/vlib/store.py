"""R09: the artifact store, with failing system calls, judged by Store.tla."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, SPEC, TARGET, WORK, Check, ToolError, build, log, tlc

STOREH = f"{TARGET}/debug/storeh"
DIR = f"{WORK}/store"


def model(chk, ops):
    cfg = f"{DIR}/mc-{os.getpid()}.cfg"
    text = re.sub(r"MaxOps = .*", f"MaxOps = {ops}", open(f"{SPEC}/StoreMC.cfg").read())
    for inplace in ("FALSE", "TRUE"):
        with open(cfg, "w") as f:
            f.write(re.sub(r"InPlace = .*", f"InPlace = {inplace}", text))
        r = tlc("StoreMC", cfg=cfg, workers=8, timeout=1500, heap="12g")
        if inplace == "FALSE":
            if not r["ok"]:
                raise ToolError("StoreMC:\n" + r["out"][-2500:])
            chk.add("states", r["distinct"])
            chk.add("transitions", r["states"])
            log(f"model: {r['distinct']} states")
        elif not r["violated"]:
            raise ToolError("StoreMC: writing in place is not noticed")
    os.remove(cfg)


def generate(n, seed):
    def one(k):
        r = tlc("StoreMC", cfg="StoreGen.cfg", args=["-simulate", f"num={n // 4}", "-depth", "16", "-seed", str(seed * 101 + k)], workers=1, heap="1g", timeout=600)
        if r["rc"] not in (0, None) and "SESSION" not in r["out"]:
            raise ToolError("generating sessions:\n" + r["out"][-2000:])
        return [json.loads(json.loads(x)) for x in re.findall(r'<<"SESSION", (".*")>>', r["out"])]

    with ThreadPoolExecutor(4) as ex:
        got = [s for g in ex.map(one, range(4)) for s in g]
    return [{"id": k, "ops": s} for k, s in enumerate(got)]


def sweep():
    """Every system call of a store, a replacement, a deletion and a clearing fails once, in each way."""
    out = []
    for v in (1, 3, 6):
        for fault in range(1, 25):
            for e in range(7):
                for short in (False, True):
                    f = {"fault": fault, "e": e, "short": short}
                    z = {"fault": 0, "e": 0, "short": False}
                    for op in ("store", "delete", "clear"):
                        a = [dict(z, op="store", k=1, v=2), dict(z, op="store", k=2, v=v), dict(z, op="open", k=1, v=0), dict(z, op="open", k=2, v=0)]
                        b = {"store": dict(f, op="store", k=1, v=v + 3), "delete": dict(f, op="delete", k=1, v=0), "clear": dict(f, op="clear", k=0, v=0)}[op]
                        if op != "store" and (short or v != 1 or fault > 8):
                            continue
                        out.append({"id": 10**6 + len(out), "ops": a + [b, dict(z, op="store", k=3, v=4), dict(z, op="store", k=1, v=5), dict(z, op="delete", k=1, v=0)]})
                    if v == 1:
                        out.append({"id": 10**6 + len(out), "ops": [dict(f, op="store", k=1, v=v), dict(z, op="open", k=1, v=0), dict(z, op="store", k=1, v=2)]})
    return out


def execute(sessions, tag):
    """[(session, events)], and whether faults could be injected."""
    os.makedirs(DIR, exist_ok=True)

    def one(n):
        part = sessions[n::8]
        if not part:
            return [], True
        path = f"{DIR}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump(part, f)
        out, at, can = [], 0, True
        while at < len(part):
            with open(path, "w") as f:
                json.dump(part[at:], f)
            scratch = f"{DIR}/tmp-{os.getpid()}-{n}"
            os.makedirs(scratch, exist_ok=True)
            try:
                p = subprocess.run(common.capped([STOREH, path]), capture_output=True, text=True, timeout=150 if common.TIER == "quick" else 900, env=dict(os.environ, TMPDIR=scratch))
                text, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                text, err, rc = (e.stdout or b"").decode(), "timeout", -1
            finally:
                common.shutil.rmtree(scratch, ignore_errors=True)
            cur = None
            for line in text.splitlines():
                t, x = line[0], line[2:]
                if t == "C":
                    can = x == "true"
                elif t == "S":
                    cur = []
                elif t == "V":
                    cur.append(json.loads(x))
                elif t == "E":
                    out.append({"session": part[at], "events": cur, "died": ""})
                    cur = None
                    at += 1
            if cur is not None:
                out.append({"session": part[at], "events": cur, "died": f"exit {rc}: {err[-500:]}"})
                at += 1
            elif rc and at < len(part):
                raise ToolError(f"store worker: {rc} {err[-500:]}")
        os.remove(path)
        return out, can

    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, range(8)))
    return [r for g, _ in got for r in g], all(c for _, c in got)


def judge(recs, tag):
    os.makedirs(DIR, exist_ok=True)

    def one(n):
        idx = list(range(n, len(recs), 8))
        if not idx:
            return {}, 0
        path = f"{DIR}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump([{"events": recs[k]["events"], "died": bool(recs[k]["died"])} for k in idx], f)
        r = tlc("StoreTrace", env={"TRACES": path}, workers=1, heap="2g", timeout=800, jvm=["-Xss64m"])
        os.remove(path)
        if not r["ok"]:
            raise ToolError("TLC on StoreTrace:\n" + r["out"][-3000:])
        return {idx[int(a) - 1]: (int(b), c) for a, b, c in re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"\s*>>', r["out"])}, r["distinct"]

    bad, states = {}, 0
    with ThreadPoolExecutor(8) as ex:
        for b, s in ex.map(one, range(8)):
            bad.update(b)
            states += s
    return bad, states


def falsify(rng, recs):
    out = []
    for r in rng.sample([r for r in recs if r["events"]], min(80, len(recs))):
        r = json.loads(json.dumps(r))
        e = rng.choice(r["events"])
        c = rng.randrange(6)
        k = rng.randrange(6)
        if c == 0:
            e["snap"][k] = e["listed"][k] = -1
        elif c == 1:
            e["listed"][k] = 3 if e["listed"][k] != 3 else 0
        elif c == 2:
            e["len"] += 1
        elif c == 3:
            e["held"] = e["held"] + [False]
        elif c == 4:
            e["ok"], e["hit"] = False, False
        else:
            r["died"] = "yes"
        out.append(r)
    return out


def check():
    os.makedirs(DIR, exist_ok=True)
    thorough = common.TIER == "thorough"
    chk = Check("R09", "model_checking")
    chk.assumptions += [
        "One thread uses the store at a time, as the runtime does.",
        "A failing call is one the kernel reports an error for; a file that the kernel loses or changes is not considered.",
    ]
    build("storeh")
    model(chk, 5 if thorough else 4)
    todo = generate(20_000 if thorough else 1_600, SEED) + sweep()
    recs, can = execute(todo, "s")
    hits = sum(e["hit"] for r in recs for e in r["events"])
    log(f"{len(recs)} sessions, {sum(len(r['events']) for r in recs)} operations, {hits} of them with a failing call")
    if not can:
        chk.assumptions.append("This kernel refuses seccomp filters here, so no call was made to fail in this run.")
    elif hits < 500:
        raise ToolError("hardly any fault was injected")
    fake = falsify(random.Random(SEED), recs)
    bad, st = judge(recs + fake, "s")
    missed = sum(k not in bad for k in range(len(recs), len(recs) + len(fake)))
    if missed and not any(k < len(recs) for k in bad):
        raise ToolError(f"{missed} of {len(fake)} falsified sessions were accepted")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    chk.add("operations", sum(len(r["events"]) for r in recs))
    chk.add("failing_calls", hits)
    chk.add("falsified_records_rejected", len(fake))
    chk.sample({"session": recs[0]["session"], "last": recs[0]["events"][-1:]}, 2)
    for k in sorted((k for k in bad if k < len(recs)), key=lambda k: bad[k][0])[:3]:
        at, what = bad[k]
        r = recs[k]
        e = r["events"][at - 1] if at <= len(r["events"]) else {"died": r["died"]}
        s = dict(r["session"], ops=r["session"]["ops"][:at])
        chk.violation(what, f"operation {at}: {what}: {json.dumps(e)[:400]}", {"kind": "store", "session": s, "event": e, "what": what})
    return chk.finish()
