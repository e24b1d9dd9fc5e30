"""replay.py FILE: runs a recorded violation again against /repo's working tree."""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common  # noqa: E402

r = json.load(open(sys.argv[1]))
kind = r.get("kind")
if kind == "evm-case":
    from vlib import evm
    common.build("evmh")
    p = f"{common.WORK}/replay-case.json"
    json.dump(r["record"]["case"], open(p, "w"))
    q = subprocess.run([evm.EVMH, "case", p], capture_output=True, text=True)
    print(q.stderr[-2000:])
    if q.returncode:
        print("the case ends the process:", q.returncode)
        sys.exit(1)
    rec = json.loads(q.stdout)
    print(json.dumps(rec, indent=1))
    if evm.decidable(rec):
        v, _ = evm.judge([rec])
        print("EVM.tla:", "agrees" if v.get(0, 0) is None else v.get(0))
    sys.exit(1 if rec["diff"] else 0)
if kind == "rt-scenario":
    from vlib import runtime
    common.build("rth")
    bad = 0
    for slow in (1, 4):
        t = runtime.run([r["scenario"]], "replay", slow, procs=1).get(r["scenario"]["id"], {"crash": "no answer"})
        if "crash" in t:
            print("the process dies:", t["crash"])
            bad = 1
            continue
        for n, e in enumerate(t["trace"], 1):
            print(n, json.dumps(e))
        acc, _, _ = runtime.accepted([t], "replay")
        if 0 in acc:
            print("Runtime.tla: accepted")
        else:
            i, why = runtime.diagnose(t, "replay")
            print("Runtime.tla: rejected at event", i, "in respect of", why)
            bad = 1
    sys.exit(bad)
if kind == "asm":
    from vlib import asm
    common.build("asmh")
    x = {k: v for k, v in r["record"].items() if k in ("text", "code", "fork")}
    got = asm.execute([x], "replay")
    print(json.dumps(got, indent=1))
    if any("crash" in g for g in got):
        sys.exit(1)
    bad, _ = asm.judge(got, "replay")
    print("Asm.tla:", bad or "agrees")
    sys.exit(1 if bad else 0)
if kind == "robust":
    from vlib import compiler
    common.build("evmh")
    compiler.SEED = r["seed"]
    res, died = compiler.robust(r["seed"], r["index"] + 1, 60, start=r["index"])
    print(json.dumps(res.get(r["index"])), died.get(r["index"], ""))
    d = [x[k] for x in res.get(r["index"], []) for k in ("a", "b")]
    bad, _ = compiler.judge([{"kind": "repeat", "died": bool(died), "fine": not any(x.startswith("error") for x in d), "digests": d}], "replay")
    print("CompilerTrace.tla:", bad or "accepts")
    sys.exit(1 if bad else 0)
if kind in ("session", "aot"):
    from vlib import compiler
    common.build("evmh")
    how = ("sessions", "CompilerTrace") if kind == "session" else ("aot", "AotTrace")
    recs = compiler.replay([r["session"]], "replay", how[0])
    for e in recs[0]["events"]:
        print(json.dumps(e))
    bad, _ = compiler.judge([compiler.slim(x) for x in recs], "replay", how[1])
    print(how[1], bad or "accepts")
    sys.exit(1 if bad else 0)
if kind == "helper":
    from vlib import helper
    common.build("helph")
    recs = helper.execute([r["session"]], slow=3)
    for e in recs[0]["events"]:
        print(json.dumps(e))
    bad, _ = helper.judge(recs)
    print("HelperTrace.tla:", bad or "accepts", {k: recs[0][k] for k in ("hung", "left", "died")})
    sys.exit(1 if bad else 0)
if kind == "store":
    from vlib import store
    common.build("storeh")
    recs, _ = store.execute([r["session"]], "replay")
    for e in recs[0]["events"]:
        print(json.dumps(e))
    bad, _ = store.judge(recs, "replay")
    print("StoreTrace.tla:", bad or "accepts", recs[0]["died"])
    sys.exit(1 if bad else 0)
if kind == "tx":
    from vlib import tx
    common.build("txh")
    extra = ["inspect"] if r["inspect"] else []
    subprocess.run([tx.TXH, "show", str(r["seed"]), str(r["index"])] + extra)
    recs, died = tx.execute(r["seed"], 1, r["inspect"], start=r["index"], procs=1)
    bad, _ = tx.judge(recs, "replay")
    print("TxTrace.tla:", bad or "accepts", died)
    sys.exit(1 if bad else 0)
sys.exit(f"unknown kind {kind}")
