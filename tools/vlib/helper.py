"""R07, R08 with an out-of-process compiler: sessions made by TLC from Helper.tla, judged by HelperTrace."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, SPEC, TARGET, WORK, ToolError, log, tlc

HELPH = f"{TARGET}/debug/helph"
DIR = f"{WORK}/helper"
KEYS = 3


def model(chk, ops):
    os.makedirs(DIR, exist_ok=True)
    cfg = f"{DIR}/mc-{os.getpid()}.cfg"
    with open(cfg, "w") as f:
        f.write(re.sub(r"MaxOps = .*", f"MaxOps = {ops}", open(f"{SPEC}/HelperMC.cfg").read()))
    r = tlc("HelperMC", cfg=cfg, workers=8, timeout=1500, heap="12g")
    os.remove(cfg)
    if not r["ok"]:
        raise ToolError("HelperMC:\n" + r["out"][-2500:])
    chk.add("states", r["distinct"])
    chk.add("transitions", r["states"])
    log(f"helper model: {r['distinct']} states")


def simulate(profile, n, seed, workers="{1, 2}", helpers='{"self"}', ops=10):
    os.makedirs(DIR, exist_ok=True)
    cfg = f"{DIR}/gen-{os.getpid()}-{seed}.cfg"
    text = open(f"{SPEC}/HelperGen.cfg").read()
    for k, v in (("Profile", f'"{profile}"'), ("Workers", workers), ("Helpers", helpers), ("MaxOps", ops)):
        text = re.sub(rf"{k} = .*", f"{k} = {v}", text)
    with open(cfg, "w") as f:
        f.write(text)
    r = tlc("HelperMC", cfg=cfg, args=["-simulate", f"num={n}", "-depth", str(ops + 2), "-seed", str(seed)], workers=1, heap="1g", timeout=600)
    os.remove(cfg)
    got = [json.loads(json.loads(x)) for x in re.findall(r'<<"SESSION", (".*")>>', r["out"])]
    if not got:
        raise ToolError("generating helper sessions:\n" + r["out"][-2000:])
    return got


def generate(prop, n, seed):
    rng = random.Random(seed)
    out = []
    if prop == "R07":
        out += simulate("pause", n, seed * 7 + 1)
    else:
        out += simulate("fault", n * 3 // 4, seed * 7 + 2)
        bad = '{"missing", "exit", "noise", "silent", "deaf"}'
        out += simulate("fault", n // 4, seed * 7 + 3, helpers=bad, ops=6)
    for k, s in enumerate(out):
        kinds = {o["op"] for o in s["ops"]}
        c = s["cfg"]
        timed = kinds & {"expire", "dwell"}
        c["timeout"] = 2500 if timed else 60_000
        if c["helper"] in ("silent", "deaf") and not timed:
            c["timeout"] = 4000
        c["size"] = rng.choice((0, 0, 3000, 20_000))
        if c["helper"] == "deaf":
            c["size"] = 100_000
        c["mem"] = rng.choice((0, 0, 1 << 36))
        c["cpus"] = rng.choice((0, 0, 1, 2, 4))
        c["exp"] = rng.choice((0, 0, 3, 77))
        c["blocking"] = k % 4 == 0
        s["id"] = k
    return out


def execute(sessions, slow=1, par=16):
    def one(s):
        d = f"{DIR}/run-{os.getpid()}-{s['id']}-{slow}"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/s.json"
        with open(path, "w") as f:
            json.dump(s, f)
        try:
            p = subprocess.run([HELPH, path, str(slow)], capture_output=True, text=True, errors="replace", timeout=60 + 200 * slow, env=dict(os.environ, TMPDIR=d, RUST_BACKTRACE="0"))
            text, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            text, err, rc = (e.stdout or b"").decode(errors="replace"), "timeout", -1
        finally:
            common.shutil.rmtree(d, ignore_errors=True)
        r = {"session": s, "cfg": s["cfg"], "events": [], "hung": 0, "left": 0, "died": "", "late": False}
        done = False
        for line in text.splitlines():
            if line.startswith("V "):
                r["events"].append(json.loads(line[2:]))
            elif line.startswith("E "):
                r.update(json.loads(line[2:]))
                done = True
        if not done:
            r["died"] = f"exit {rc}: {err[-600:]}"
        return r

    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(one, sessions))


def judge(recs):
    """{index: (event, what)}"""
    def one(n):
        idx = list(range(n, len(recs), 4))
        if not idx:
            return {}, 0
        path = f"{DIR}/judge-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump([{"cfg": {"w": recs[k]["cfg"]["w"], "helper": recs[k]["cfg"]["helper"]}, "events": recs[k]["events"], "hung": recs[k]["hung"],
                        "left": recs[k]["left"], "died": recs[k]["died"]} for k in idx], f)
        r = tlc("HelperTrace", env={"TRACES": path}, workers=1, heap="2g", timeout=800, jvm=["-Xss64m"])
        os.remove(path)
        if not r["ok"]:
            raise ToolError("TLC on HelperTrace:\n" + r["out"][-3000:])
        return {idx[int(a) - 1]: (int(b), c) for a, b, c in re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"\s*>>', r["out"])}, r["distinct"]

    bad, states = {}, 0
    with ThreadPoolExecutor(4) as ex:
        for b, s in ex.map(one, range(4)):
            bad.update(b)
            states += s
    return bad, states


def falsify(rng, recs):
    out = []
    for r in rng.sample([r for r in recs if r["events"] and not r["died"]], min(40, len(recs))):
        r = json.loads(json.dumps(r))
        e = rng.choice(r["events"])
        c = rng.randrange(7)
        k = rng.randrange(KEYS)
        if c == 0:
            e["seen"]["open"][k] += 1
        elif c == 1:
            e["seen"]["res"][k] = not e["seen"]["res"][k]
        elif c == 2:
            e["seen"]["gates"][k] += 1
        elif c == 3:
            e["seen"]["fail"] += 1
        elif c == 4:
            e["seen"]["stopped"] += 1
        elif c == 5:
            e["seen"]["paused"] = not e["seen"]["paused"]
        else:
            r["hung"] = 1
        out.append(r)
    return out


def run(chk, prop, n, ops):
    model(chk, ops)
    todo = generate(prop, n, SEED)
    recs = execute(todo)
    late = [k for k, r in enumerate(recs) if any(e["late"] for e in r["events"] if r["cfg"]["timeout"] < 60_000)]
    fake = falsify(random.Random(SEED), recs)
    bad, st = judge(recs + fake)
    missed = sum(k not in bad for k in range(len(recs), len(recs) + len(fake)))
    bad = {k: v for k, v in bad.items() if k < len(recs)}
    log(f"{len(recs)} sessions with a helper, {sum(len(r['events']) for r in recs)} operations, {len(bad)} to look at again, {len(late)} late")
    # What looks wrong is run again with more patience; a session whose jobs may have timed out by themselves says nothing.
    real = []
    if bad:
        again = [recs[k]["session"] for k in sorted(bad)][:24]
        for slow in (3, 6):
            rr = execute(again, slow=slow, par=8)
            b2, _ = judge(rr)
            keep = []
            for k, (at, what) in sorted(b2.items()):
                r = rr[k]
                upto = r["events"][: at]
                if r["cfg"]["timeout"] < 60_000 and any(e["late"] for e in upto if e["op"] not in ("expire", "dwell")):
                    continue
                keep.append((r, at, what))
            again = [r["session"] for r, _, _ in keep]
            real = keep
            if not again:
                break
    if missed and not real:
        raise ToolError(f"{missed} of {len(fake)} falsified helper sessions were accepted")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    chk.add("helper_sessions", len(recs))
    chk.add("helper_operations", sum(len(r["events"]) for r in recs))
    chk.add("falsified_records_rejected", len(fake))
    for r, at, what in real[:3]:
        e = r["events"][at - 1] if at <= len(r["events"]) else {"hung": r["hung"], "left": r["left"], "died": r["died"]}
        s = dict(r["session"], ops=r["session"]["ops"][:at])
        chk.violation(f"helper-{what}", f"operation {at}: {what}: {json.dumps(e)[:500]}", {"kind": "helper", "session": s, "event": e, "what": what})
