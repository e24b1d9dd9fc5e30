"""C01..C09: executions of compiled code, recorded and checked against EVM.tla by TLC."""
import copy
import json
import os
import random
import re
import subprocess

from . import common
from .common import SEED, TARGET, TIER, WORK, Check, ToolError, build, cargo_env, log, tlc

# In which respects a deviation breaks the property ("kind": how the frame ended; crash: it did not).
FIELDS = {
    "C01": {"out", "stack"},
    "C02": {"gas", "refund", "req"},
    "C03": {"out", "stack", "gas"},
    "C04": {"stack"},
    "C05": {"mem", "out", "stack", "gas"},
    "C06": {"world", "stack", "gas", "refund", "out"},
    "C07": {"gas", "refund", "stack", "mem", "out", "req", "world"},
    "C08": {"gas", "refund", "stack", "mem", "out", "req", "world"},
    "C09": {"gas", "refund", "stack", "mem", "out", "req", "world"},
}
EVMH = f"{TARGET}/debug/evmh"
MAX_MEM = 1 << 16  # bytes; larger memories are judged by the reference interpreter


def has_gas_op(code):
    i, b = 0, bytes.fromhex(code)
    while i < len(b):
        if b[i] == 0x5A:
            return True
        i += b[i] - 0x5E if 0x60 <= b[i] <= 0x7F else 1
    return False


def attributed(prop, fields, code):
    """Whether differing in `fields` is a breach of this property."""
    want = FIELDS[prop] | {"kind", "crash"}
    if prop == "C02" and has_gas_op(code):
        want = want | {"stack", "out", "mem", "world"}
    return bool(want & set(fields))


def conv(r):
    """A record as EVMTrace.tla reads it."""
    r = {"case": r["case"], "obs": copy.deepcopy(r["obs"])}
    for o in r["obs"]:
        w = o["world"]
        if w:
            for k in ("sto", "tsto", "bal"):
                w[k] = [[a, b] for a, b in w[k].items()]
        else:
            o["world"] = {}
    return r


def judge(recs, timeout=300, tag="b"):
    """TLC's verdict per record: None (agrees), or (segment, fields); absent if TLC gave none."""
    v, total = {}, {"states": 0, "distinct": 0, "out": ""}
    todo = list(range(len(recs)))
    path = f"{WORK}/batch-{os.getpid()}-{tag}.ndjson"
    for _ in range(8):
        if not todo:
            break
        with open(path, "w") as f:
            for i in todo:
                f.write(json.dumps(conv(recs[i])) + "\n")
        t = tlc("EVMTrace", env={"EVM_BATCH": path}, timeout=timeout)
        os.remove(path)
        if t["violated"]:
            raise ToolError(f"the specification breaks its own {t['violated']}:\n" + t["out"][-3000:])
        for line in t["out"].splitlines():
            m = re.match(r'<<"AGREES", (\d+)>>', line)
            if m:
                v[todo[int(m[1]) - 1]] = None
            m = re.match(r'<<"MISMATCH", (\d+), (\d+), \{(.*)\}>>', line)
            if m:
                v[todo[int(m[1]) - 1]] = (int(m[2]), re.findall(r'"(\w+)"', m[3]))
        total["states"] += t["states"]
        total["distinct"] += t["distinct"]
        total["out"] = t["out"]
        if t["ok"] or t["rc"] is None:
            break
        # An expression the specification cannot evaluate: set that record aside.
        m = re.search(r"/\\ i = (\d+)", t["out"])
        if not m:
            log("TLC stopped early:", t["out"][-1500:])
            break
        bad = todo[int(m[1]) - 1]
        log("note: TLC cannot evaluate a record:", json.dumps(recs[bad]["case"])[:300])
        todo = [i for i in todo if i not in v and i != bad]
    return v, total


def corrupt(r, rnd):
    """A copy of the record with one observed field changed, and that field."""
    r = copy.deepcopy(r)
    o = r["obs"][-1]
    opts = ["kind"]
    if o["k"] not in ("halt", "crash"):
        opts = ["gas", "refund", "mem", "out", "kind"]
        if o["has_stack"] and o["stack"]:
            opts.append("stack")
        if o["k"] != "revert" and o["world"]:
            opts.append("world")
        if o["k"] in ("call", "create"):
            opts.append("req")
    f = rnd.choice(opts)
    if f == "kind":
        o["k"] = "stop" if o["k"] != "stop" else "return"
        for x in ("out",):
            o[x] = o[x]
    elif f == "gas":
        o["gas"] += rnd.choice([1, 3, 100])
    elif f == "refund":
        o["refund"] += 1
    elif f in ("mem", "out"):
        o[f] = ("%02x" % (int(o[f][:2], 16) ^ 1)) + o[f][2:] if o[f] else "00" * (32 if f == "mem" else 1)
    elif f == "stack":
        i = rnd.randrange(len(o["stack"]))
        w = o["stack"][i]
        o["stack"][i] = w[:-1] + "%x" % (int(w[-1], 16) ^ 1)
    elif f == "world":
        o["world"]["warm_a"] = o["world"]["warm_a"] + ["00" * 12 + "fe" * 20]
    elif f == "req":
        o["req"]["gas"] += 1
    return r, f


def decidable(r):
    # TLC's integers have 32 bits.
    if r["case"]["gas"] >= 1 << 31 or max(r["case"]["gp"].values()) >= 1 << 26:
        return False
    return all(len(o["mem"]) <= 2 * MAX_MEM for o in r["obs"])


def minimise(rec, prop, fields):
    """Shrinks the code of a failing case while compiled code and the reference keep disagreeing."""
    def run(c):
        p = f"{WORK}/min-{os.getpid()}.json"
        with open(p, "w") as f:
            json.dump(c, f)
        try:
            q = subprocess.run(common.capped([EVMH, "case", p]), capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return None
        finally:
            os.remove(p)
        if q.returncode or not q.stdout.strip():
            return None
        r = json.loads(q.stdout)
        return r if r["diff"] and attributed(prop, r["diff"], r["case"]["code"]) else None

    best, budget = rec, 60
    if "crash" in fields:
        return rec
    c = copy.deepcopy(rec["case"])
    n = max(1, len(c["code"]) // 4)
    while n >= 2 and budget > 0:
        i, cut = 0, False
        while i < len(c["code"]) and budget > 0:
            t = copy.deepcopy(c)
            t["code"] = c["code"][:i] + c["code"][i + n - n % 2:]
            budget -= 1
            r = run(t) if t["code"] != c["code"] else None
            if r:
                c, best, cut = t, r, True
            else:
                i += n - n % 2
        n = n if cut and n > 2 else n // 2
    return best


def main(prop):
    build("evmh")
    ck = Check(prop, "model_checking")
    thorough = TIER == "thorough"
    out = f"{WORK}/run/{prop}"
    count, secs, nsamp = (2_000_000, 900, 30_000) if thorough else (130_000, 75, 1500)
    every = 80 if not thorough else 200
    env = dict(cargo_env(), EVMH_SAMPLE_STEPS="400" if not thorough else "1500")
    p = subprocess.run(
        common.capped([EVMH, "batch", "--prop", prop, "--seed", str(SEED), "--count", str(count), "--secs", str(secs), "--every", str(every), "--stop-after", "60", "--out", out]),
        env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("evmh: " + p.stderr[-3000:])
    st = json.load(open(f"{out}/stats.json"))
    log(p.stdout.strip(), st["ends"])
    mism = [json.loads(x) for x in open(f"{out}/mismatch.ndjson")]
    samples = [json.loads(x) for x in open(f"{out}/sample.ndjson")]
    rnd = random.Random(SEED)
    rnd.shuffle(samples)
    samples = [r for r in samples if decidable(r)]
    ended = [r for r in samples if r["obs"][-1]["k"] == "halt"]
    samples = ([r for r in samples if r["obs"][-1]["k"] != "halt"][:nsamp * 3 // 4] + ended)[:nsamp]
    rnd.shuffle(samples)
    if len(samples) < 50 and not mism:
        raise ToolError("too few samples")

    # Every disagreement with the reference interpreter, and the samples, go to the specification.
    hard = [r for r in mism if decidable(r) and r["obs"][0]["k"] != "crash"][:40]
    canaries = [corrupt(r, rnd) for r in samples[:40]]
    recs = hard + samples + [c for c, _ in canaries]
    v, t = judge(recs, timeout=1500 if thorough else 300)
    agreed = sum(1 for i in range(len(hard), len(hard) + len(samples)) if v.get(i, 0) is None)
    undecided = sum(1 for i in range(len(recs)) if i not in v)
    if undecided > len(recs) // 10:
        raise ToolError(f"TLC decided only {len(recs) - undecided} of {len(recs)} records: {t['out'][-2000:]}")

    # The binding is live: a corrupted observation is rejected, for that field.
    base = len(hard) + len(samples)
    for k, (c, f) in enumerate(canaries):
        if v.get(len(hard) + k, 0) is None and v.get(base + k, 0) is None:
            raise ToolError(f"a corrupted observation ({f}) was accepted: {json.dumps(c)[:1500]}")

    def report(r, fields, judge_):
        if not attributed(prop, fields, r["case"]["code"]):
            log("deviation outside this property:", sorted(fields), r["case"]["code"][:120])
            return
        m = minimise(r, prop, fields) if len(ck.bad) < 2 else r
        ck.violation(
            f"code:{m['case']['code']}",
            f"{sorted(set(fields))} differ ({judge_}); fork={m['case']['fork']} code={m['case']['code'][:400]} end={m['obs'][-1]['k']} {m['obs'][-1]['why'][:200]}",
            {"kind": "evm-case", "judge": judge_, "fields": sorted(set(fields)), "record": m, "how": "tools/replay.sh <this file>"})

    for i, r in enumerate(hard):
        if i in v:
            if v[i] is not None:
                report(r, v[i][1], "EVM.tla")
            else:
                log("note: revm's interpreter alone deviates from the specification:", r["diff"], r["case"]["code"][:200])
        else:
            report(r, r["diff"], "reference interpreter; TLC gave no verdict")
    hids = {id(r) for r in hard}
    for r in mism:
        if id(r) not in hids:
            report(r, r["diff"], "reference interpreter" if r["obs"][0]["k"] != "crash" else "no execution: " + r["obs"][0]["why"][:200])
    notes = 0
    for k in range(len(samples)):
        x = v.get(len(hard) + k)
        if x is not None:
            notes += 1
            r = samples[k]
            log("note: compiled code and revm's interpreter agree with each other, not with the specification:", x, r["case"]["fork"], r["case"]["code"][:200])

    ck.cov.update(
        states=t["distinct"], transitions=max(0, t["states"] - len(recs)),
        traces_validated_against_impl=agreed, executions_compared=st["runs"], programs=st["programs"],
        instructions_executed=st["steps"], observations=st["segments"], ends=st["ends"],
        distinct_opcodes=len(st["opcodes"]), corrupted_records_rejected=sum(1 for k in range(len(canaries)) if v.get(base + k) is not None),
        disagreements=len(mism), specification_notes=notes, step_budget_skips=st["skipped"])
    for r in samples[:4]:
        ck.sample({"fork": r["case"]["fork"], "kind": r["case"]["kind"], "code": r["case"]["code"][:300], "gas": r["case"]["gas"], "cfg": r["case"]["cfg"],
                   "steps": r["steps"], "end": r["obs"][-1]["k"], "gas_left": r["obs"][-1]["gas"]})
    if prop == "C01" and thorough:
        w = tlc("WordCheck", timeout=1500, jvm=["-Xss64m"])
        if not w["ok"] or "DIFFERS" in w["out"]:
            raise ToolError("WordCheck: " + w["out"][-1500:])
        ck.cov["operator_cases_against_definitions"] = w["distinct"]
    ck.assumptions = [
        "LLVM is replaced by /verif/fake-llvm: an IR builder with a verifier and an interpreter that traps on undefined behaviour",
        "256-bit arithmetic and Keccak in the specification are evaluated by Java (spec/java/Word256.java), compared with pure TLA+ definitions (WordDef.tla) by WordCheck.tla in the thorough C01 run",
        "executions that agree with revm's interpreter are sampled, not all, for TLC",
    ]
    return ck.finish()
