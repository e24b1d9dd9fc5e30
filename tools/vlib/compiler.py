"""C10, C11, C12: compilations and sessions of the real compiler, judged by Compiler.tla and Aot.tla."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, SPEC, TARGET, WORK, Check, ToolError, build, cargo_env, log, tlc

EVMH = f"{TARGET}/debug/evmh"
DIR = f"{WORK}/compiler"


def judge(recs, tag, module="CompilerTrace"):
    """{index: (event, what)} of the records Compiler.tla does not allow; TLC's figures."""
    os.makedirs(DIR, exist_ok=True)
    bad, states = {}, 0

    def one(n):
        idx = list(range(n, len(recs), 8))
        if not idx:
            return {}, 0
        path = f"{DIR}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump([recs[k] for k in idx], f)
        r = tlc(module, env={"TRACES": path}, workers=1, heap="2g", timeout=800, jvm=["-Xss64m"])
        os.remove(path)
        if not r["ok"]:
            raise ToolError(f"TLC on {module}:\n" + r["out"][-3000:])
        return {idx[int(a) - 1]: (int(b), c) for a, b, c in re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"\s*>>', r["out"])}, r["distinct"]

    with ThreadPoolExecutor(8) as ex:
        for b, s in ex.map(one, range(8)):
            bad.update(b)
            states += s
    return bad, states


def model(chk, ops, module="CompilerMC"):
    cfg = f"{DIR}/mc-{os.getpid()}.cfg"
    os.makedirs(DIR, exist_ok=True)
    with open(cfg, "w") as f:
        f.write(re.sub(r"MaxOps = .*", f"MaxOps = {ops}", open(f"{SPEC}/{module}.cfg").read()))
    r = tlc(module, cfg=cfg, workers=8, timeout=1500, heap="12g")
    os.remove(cfg)
    if not r["ok"]:
        raise ToolError(f"{module}:\n" + r["out"][-2500:])
    chk.add("states", r["distinct"])
    chk.add("transitions", r["states"])
    log(f"model: {r['distinct']} states")


# ---------------------------------------------------------------- C10

def robust(seed, count, secs, start=0):
    """Every byte string compiled in two processes, twice in each: {index: [record of each process]}."""
    def one(job):
        n, rev = job
        stride, at, got, dead = 4, start + n, {}, []
        while at < count:
            p = subprocess.Popen(common.capped([EVMH, "robust", str(seed), str(at), str(stride), str(count)]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 env=dict(cargo_env(), **({"EVMH_PADDING": "x" * 5000} if rev else {})))
            cur, done = at, False
            import threading
            err = []
            th = threading.Thread(target=lambda: err.append(p.stderr.read()[-1500:]))
            th.start()
            last = [common.time.time()]
            stuck = [False]

            def watch():
                while p.poll() is None:
                    if common.time.time() - last[0] > secs:
                        stuck[0] = True
                        p.kill()
                    common.time.sleep(0.5)
            w = threading.Thread(target=watch)
            w.start()
            for line in p.stdout:
                last[0] = common.time.time()
                if line[0] == "S":
                    cur = int(line[2:])
                elif line[0] == "R":
                    r = json.loads(line[2:])
                    got[r["i"]] = r
                elif line[0] == "D":
                    done = True
            p.wait()
            th.join()
            w.join()
            if done:
                break
            dead.append((cur, f"no result in {secs} s" if stuck[0] else f"exit {p.returncode}: {err[0][-600:]}"))
            if len(dead) > 5:
                break
            at = cur + stride
        return got, dead

    res, died = {}, {}
    with ThreadPoolExecutor(8) as ex:
        for got, dead in ex.map(one, [(n, rev) for rev in (0, 1) for n in range(4)]):
            for i, r in got.items():
                res.setdefault(i, []).append(r)
            for i, why in dead:
                died[i] = why
    return res, died


def c10(chk, thorough):
    chk.assumptions += [
        "Code generation ends at the LLVM IR handed to the backend; the stand-in's verifier decides well-formedness and its serialised module is the code that is compared.",
        "Byte strings up to 49152 bytes: generated programs, their mutations, the repository's corpus, and adversarial shapes (jump tables, internal calls, repeated blocks, truncated pushes).",
    ]
    count = 150_000 if thorough else 8_000
    res, died = robust(SEED, count, 60)
    recs, keys = [], []
    for i in sorted(set(res) | set(died)):
        rs = res.get(i, [])
        d = [x[k] for x in rs for k in ("a", "b")]
        recs.append({"kind": "repeat", "died": i in died, "fine": not any(x.startswith("error") for x in d), "digests": d})
        keys.append(i)
    log(f"{len(recs)} byte strings compiled 4 times; longest {max((x['len'] for v in res.values() for x in v), default=0)} bytes, slowest {max((x['ms'] for v in res.values() for x in v), default=0)} ms")
    if len(recs) < count // 2 and not died:
        raise ToolError("too few records")
    fake = []
    for r in random.Random(SEED).sample(recs, 30):
        k = len(fake) % 3
        fake.append(dict(r, died=True) if k == 0 else dict(r, fine=False) if k == 1 else dict(r, digests=r["digests"] + ["x"]))
    bad, st = judge(recs + fake, "c10")
    if any(n not in bad for n in range(len(recs), len(recs) + len(fake))) and not any(n < len(recs) for n in bad):
        raise ToolError("a falsified record was accepted")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    chk.add("bytes_compiled", sum(v[0]["len"] for v in res.values()))
    chk.add("falsified_records_rejected", len(fake))
    for i in keys[100:103]:
        chk.sample({"seed": SEED, "index": i, "records": res[i]}, 3)
    # Objects: on a used instance the same as on a new one.
    sessions(chk, 3_000 if thorough else 240, True, ("object", "crash"))
    for n in sorted(k for k in bad if k < len(recs))[:3]:
        i = keys[n]
        p = subprocess.run([EVMH, "robust-code", str(SEED), str(i)], capture_output=True, text=True)
        c = json.loads(p.stdout)
        chk.violation(bad[n][1], f"byte string {i} ({len(c['code']) // 2} bytes, fork {c['fork']}): {bad[n][1]} {died.get(i, '')} {res.get(i)}"[:700],
                      {"kind": "robust", "seed": SEED, "index": i, "what": bad[n][1], "why": died.get(i, ""), "records": res.get(i), "code": c["code"], "fork": c["fork"], "cfg": c["cfg"]})


# ---------------------------------------------------------------- C11

def generate(n, seed, aot=False, name="Compiler"):
    """Sessions from TLC's simulation of CompilerMC or AotMC."""
    cfg = f"{DIR}/gen-{os.getpid()}.cfg"
    os.makedirs(DIR, exist_ok=True)
    with open(cfg, "w") as f:
        f.write(re.sub(r"Aot = .*", "Aot = {TRUE}" if aot else "Aot = {FALSE}", open(f"{SPEC}/{name}Gen.cfg").read()))

    def one(k):
        r = tlc(f"{name}MC", cfg=cfg, args=["-simulate", f"num={n // 4}", "-depth", "40", "-seed", str(seed * 101 + k)], workers=1, heap="1g", timeout=600)
        if r["rc"] not in (0, None) and "SESSION" not in r["out"]:
            raise ToolError("generating sessions:\n" + r["out"][-2000:])
        return [json.loads(json.loads(x)) for x in re.findall(r'<<"SESSION", (".*")>>', r["out"])]

    with ThreadPoolExecutor(4) as ex:
        got = [s for g in ex.map(one, range(4)) for s in g]
    os.remove(cfg)
    return [{"id": k, "seed": seed * 100_000 + k, "ops": s} for k, s in enumerate(got)]


def replay(sessions, tag, mode="sessions"):
    """The sessions as the real compiler went through them."""
    os.makedirs(DIR, exist_ok=True)

    def one(n):
        part = sessions[n::8]
        path = f"{DIR}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump(part, f)
        out, at = [], 0
        scratch = f"{DIR}/scratch-{os.getpid()}-{n}"
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, TMPDIR=scratch, PATH="/usr/bin:/bin")
        env.pop("CC", None)
        while at < len(part):
            try:
                p = subprocess.run(common.capped([EVMH, mode, path, str(at), scratch]), capture_output=True, text=True, timeout=240 if common.TIER == "quick" else 900, env=env)
                text, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                text, err, rc = (e.stdout or b"").decode(), "timeout", -1
            cur, op, want = None, None, ""
            for line in text.splitlines():
                t, x = line[0], line[2:]
                if t == "S":
                    cur, op = {"kind": "session", "session": part[at], "events": []}, None
                elif t == "O":
                    op, want = json.loads(x), ""
                elif t == "W":
                    want = x
                elif t == "V":
                    cur["events"].append(dict(json.loads(x), crash=False))
                    op = None
                elif t == "E":
                    out.append(cur)
                    cur = None
                    at += 1
            if cur is not None:
                if op is None:
                    raise ToolError("session worker ended between operations: " + err[-500:])
                cur["events"].append(dict(op, ok=False, err=err[-800:], got="", want=want, live=[], found=[], crash=True))
                out.append(cur)
                at += 1
            elif rc and at < len(part):
                raise ToolError(f"session worker: {rc} {err[-500:]}")
        os.remove(path)
        common.shutil.rmtree(scratch, ignore_errors=True)
        return out

    with ThreadPoolExecutor(8) as ex:
        return [r for g in ex.map(one, range(8)) for r in g]


def slim(r):
    return {"kind": "session", "events": [{k: v for k, v in e.items() if k != "err"} for e in r["events"]]}


def falsify(rng, recs):
    out = []
    for r in rng.sample(recs, min(60, len(recs))):
        r = json.loads(json.dumps(r))
        ev = [e for e in r["events"] if e["op"] in ("run", "object", "jit", "translate", "clear")]
        if not ev:
            continue
        e = rng.choice(ev)
        c = rng.randrange(3)
        if e["op"] in ("run", "object") and c < 2:
            e["got"] = "0" * 16
        elif c == 0:
            e["ok"] = not e["ok"]
        elif c == 1:
            e["crash"] = True
        else:
            e["live"] = e["live"][1:] if e["live"] else [1]
        out.append(r)
    return out


def sessions(chk, n, aot, blamed):
    todo = generate(n, SEED + (7 if aot else 0), aot)
    recs = replay(todo, "s")
    ops = sum(len(r["events"]) for r in recs)
    runs = sum(e["op"] in ("run", "object") for r in recs for e in r["events"])
    log(f"{len(recs)} sessions replayed: {ops} operations, {runs} runs or objects")
    if runs < 500 and not any(e["crash"] for r in recs for e in r["events"]):
        raise ToolError("too few runs")
    slims = [slim(r) for r in recs]
    fake = falsify(random.Random(SEED), slims)
    bad, st = judge(slims + fake, "s")
    missed = sum(k not in bad for k in range(len(recs), len(recs) + len(fake)))
    if missed and not any(k < len(recs) for k in bad):
        raise ToolError(f"{missed} of {len(fake)} falsified sessions were accepted")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    chk.add("operations", ops)
    chk.add("runs_and_objects", runs)
    chk.add("falsified_records_rejected", len(fake))
    chk.sample(recs[0]["session"], 4)
    for k in sorted((k for k in bad if k < len(recs)), key=lambda k: bad[k][0])[:3]:
        at, what = bad[k]
        e = recs[k]["events"][at - 1]
        if what not in blamed:
            log("outside this property:", at, what, json.dumps(e)[:200])
            continue
        s = dict(recs[k]["session"])
        s["ops"] = s["ops"][:at]
        chk.violation(what, f"operation {at} ({json.dumps(e)[:500]})", {"kind": "session", "session": s, "event": e, "what": what})


def c11(chk, thorough):
    chk.assumptions += [
        "What a function does when compiled alone, in a copy of the process that has compiled nothing before, is the oracle; C01..C09 decide whether that is right.",
        "Functions finalised together share their memory, so freeing one frees the others (as the LLVM backend does).",
    ]
    sessions(chk, 15_000 if thorough else 1_600, False, ("run", "crash", "translate", "jit", "free", "clear", "clear_ir", "drop", "set", "new", "live"))


# ---------------------------------------------------------------- C12

def c12(chk, thorough):
    chk.assumptions += [
        "The oracle is the same bytecode compiled in memory in a fresh process; C01..C09 decide whether that is right.",
        "Objects are those of the stand-in backend (the IR as data, a stub per exported function); assembler, linker and loader are the system's.",
    ]
    todo = generate(12_000 if thorough else 480, SEED + 11, name="Aot")
    recs = replay(todo, "a", "aot")
    ev = [e for r in recs for e in r["events"]]
    n = {k: sum(e["op"] == k for e in ev) for k in ("translate", "object", "link", "load", "call")}
    log(f"{len(recs)} sessions replayed:", n)
    if n["call"] < 300 and not any(e["crash"] or not e["ok"] for e in ev):
        raise ToolError("too few calls")
    slims = [slim(r) for r in recs]
    rng, fake = random.Random(SEED), []
    for r in rng.sample(slims, min(80, len(slims))):
        r = json.loads(json.dumps(r))
        e = rng.choice([e for e in r["events"] if e["op"] in ("link", "load", "call", "object", "translate")])
        if e["op"] == "call" and rng.random() < 0.7:
            e["got"] = "0" * 16
        elif e["op"] == "load" and e["found"]:
            e["found"] = e["found"][1:]
        elif e["op"] in ("link", "call", "object"):
            e["ok"] = not e["ok"]
        else:
            e["crash"] = True
        fake.append(r)
    bad, st = judge(slims + fake, "a", "AotTrace")
    mine = sorted((k for k in bad if k < len(recs)), key=lambda k: bad[k][0])
    missed = sum(k not in bad for k in range(len(recs), len(recs) + len(fake)))
    if missed and not mine:
        raise ToolError(f"{missed} of {len(fake)} falsified sessions were accepted")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    chk.add("operations", len(ev))
    for k, v in n.items():
        chk.add(k + "s", v)
    chk.add("falsified_records_rejected", len(fake))
    chk.sample(recs[0]["session"], 2)
    for k in mine[:3]:
        at, what = bad[k]
        e = recs[k]["events"][at - 1]
        s = dict(recs[k]["session"])
        s["ops"] = s["ops"][:at]
        chk.violation(what, f"operation {at}: {what}: {json.dumps(e)[:500]}", {"kind": "aot", "session": s, "event": e, "what": what})


def check(prop):
    os.makedirs(DIR, exist_ok=True)
    thorough = common.TIER == "thorough"
    chk = Check(prop, "model_checking")
    build("evmh")
    if prop == "C12":
        model(chk, 12 if thorough else 10, "AotMC")
        c12(chk, thorough)
        return chk.finish()
    model(chk, 7 if thorough else 5)
    (c10 if prop == "C10" else c11)(chk, thorough)
    return chk.finish()
