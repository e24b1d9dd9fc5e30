"""T01: texts and byte strings through the assembler and the printers, judged by spec/Asm.tla."""
import json
import os
import random
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import common
from .common import SEED, TARGET, WORK, Check, ToolError, build, log, tlc

ASMH = f"{TARGET}/debug/asmh"
OPS = """STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR CLZ
KECCAK256 ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE
EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH BLOCKHASH COINBASE TIMESTAMP NUMBER DIFFICULTY GASLIMIT CHAINID SELFBALANCE
BASEFEE BLOBHASH BLOBBASEFEE SLOTNUM POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0
CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2 STATICCALL REVERT INVALID SELFDESTRUCT LOG0 LOG1 LOG2 LOG3 LOG4""".split()
OPS += [f"{a}{n}" for a in ("DUP", "SWAP") for n in range(1, 17)]
FORKS = "FRONTIER HOMESTEAD BYZANTIUM ISTANBUL LONDON SHANGHAI CANCUN PRAGUE OSAKA AMSTERDAM AMSTERDAM AMSTERDAM".split()


def number(rng, bits=None):
    if bits is None:
        bits = rng.choice([0, 1, 4, 8, 8, 9, 16, 17, 24, 63, 64, 65, 128, 248, 255, 256, 256])
    v = rng.choice([rng.getrandbits(bits) if bits else 0, (1 << bits) - 1, (1 << bits) >> 1, 1 << bits])
    if bits < 256 or rng.random() < 0.9:
        v &= (1 << 256) - 1
    f = rng.randrange(6)
    if f == 0:
        return str(v)
    if f == 1:
        return "0" * rng.randrange(3) + str(v)
    if f == 2:
        return "0x" + "0" * rng.randrange(70) + f"{v:x}"
    if f == 3:
        return f"0X{v:X}"
    return rng.choice(["0x%x", "0x%x", "%d"]) % v


def fixed(rng, labels):
    n = rng.choice([1, 1, 2, 3, 4, 8, 20, 31, 32, rng.randrange(1, 33)])
    if labels and rng.random() < 0.3:
        return f"PUSH{n} %{rng.choice(labels)}"
    return f"PUSH{n} {number(rng, rng.choice([8 * n, 8 * n, 8 * n - 1, 8, 8 * n + 1]))}"


def inst(rng, labels, macros):
    c = rng.randrange(14)
    if c < 4:
        return rng.choice(OPS)
    if c < 6:
        return "PUSH " + ("%" + rng.choice(labels) if labels and rng.random() < 0.5 else number(rng))
    if c < 8:
        return fixed(rng, labels)
    if c == 8:
        return f"{rng.choice(['DUP', 'SWAP', 'DUPN', 'SWAPN'])} {rng.choice([0, 1, 15, 16, 17, 18, 107, 108, 144, 145, 235, 236, 255, 256, rng.randrange(1, 240)])}"
    if c == 9:
        n = rng.randrange(0, 16)
        return f"EXCHANGE {n} {rng.choice([n + 1, n, 29 - n, 30 - n, rng.randrange(31)])}"
    if c == 10 and macros:
        m = rng.choice(macros)
        if m[1] is None:
            return m[0]
        n = len(m[1]) if rng.random() < 0.9 else rng.randrange(4)
        return m[0] + rng.choice(["", "", " "]) + "(" + rng.choice([", ", ","]).join(argument(rng, labels) for _ in range(n)) + ")"
    if c == 11:
        return "RET_WORD"
    return rng.choice(OPS)


def argument(rng, labels):
    c = rng.randrange(6)
    if c == 0 and labels:
        return "%" + rng.choice(labels)
    if c == 1:
        return rng.choice(["ADD", "POP POP", "PUSH 1 PUSH 2", ""])
    return number(rng, rng.choice([4, 8, 16]))


def text(rng):
    """A program with labels, macros, comments and odd spacing; mostly well formed."""
    labels = [rng.choice(["a", "entry", "L1", "_x", "PUSH1", "JUMPDEST_2", "b0", "zz9"]) + str(n) for n in range(rng.choice([0, 0, 1, 2, 3]))]
    macros, lines = [], []
    for n in range(rng.choice([0, 0, 0, 1, 2])):
        name = rng.choice(["M", "PUSH_TWO", "FOO_", "RET_WORD", "ADD", "m9"]) + ("" if rng.random() < 0.2 else str(n))
        ps = rng.choice([None, None, [], ["a"], ["a", "b"], ["a", "a"], ["x", "y", "z"]])
        body = []
        for _ in range(rng.randrange(4)):
            body.append(rng.choice([f"PUSH ${p}" for p in (ps or [])] + [inst(rng, labels, []), "PUSH $q" if rng.random() < 0.1 else "POP", "$" + rng.choice(ps) if ps else "ADD"]))
        macros.append((name, ps))
        lines.append(f"{rng.choice(['', '', '  '])}#define{rng.choice([' ', ' ', '  ', chr(9)])}{name}" + ("" if ps is None else "(" + ", ".join(ps) + ")") + rng.choice([" ", " ", ""]) + " ".join(body) + rng.choice(["", " ; c"]))
    where = sorted(rng.randrange(14) for _ in labels)
    body = []
    for n in range(rng.randrange(1, 14)):
        for k, lab in enumerate(labels):
            if where[k] == n:
                body.append(lab + ":")
        if rng.random() < 0.04:
            body.append("\n".join("PUSH32 " + number(rng, 256) for _ in range(rng.choice([7, 8, 15]))))
        if rng.random() < 0.03:
            # Fills up to the neighbourhood of 256 bytes.
            body.append("POP " * rng.randrange(225, 262))
        body.append(inst(rng, labels, macros))
    for k, lab in enumerate(labels):
        if where[k] >= n and rng.random() < 0.97 and lab + ":" not in body:
            body.append(lab + ":")
    sep = [" ", " ", "\n", "\n  ", "\t", "\r\n", " ; note: PUSH 3, %x (y)\n", "\n\n", "\x0c", "\n#define UNUSED 1\n"]
    out = ""
    for x in body:
        out += x + rng.choice(sep)
    lines.insert(rng.randrange(len(lines) + 1), out)
    t = "\n".join(lines)
    return t.strip() if rng.random() < 0.2 else t


def damage(rng, t):
    if not t:
        return t
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        c = rng.randrange(5)
        if c == 0:
            t = t[:i] + t[i + 1:]
        elif c == 1:
            t = t[:i] + rng.choice(list(":;%$,()#0xaAZ_ \n-.'\"") + ["0", "PUSH", "\u00e9", "#define", "PUSH0", "256", "%a0"]) + t[i:]
        elif c == 2:
            j = min(len(t), i + rng.randrange(12))
            t = t[:i] + t[j:]
        elif c == 3:
            j = rng.randrange(len(t) + 1)
            t = t[:i] + t[j:j + rng.randrange(20)] + t[i:]
        else:
            w = t.split(" ")
            rng.shuffle(w)
            t = " ".join(w)
    return t


def far(rng, n):
    """A label beyond 65535."""
    k = (65536 + n) // 33 // 31
    m = " ".join(["PUSH32 1"] * 31)
    rest = 65536 + n - k * 31 * 33
    return f"#define M {m}\nPUSH %a PUSH %b JUMP b: {'M ' * k} {'POP ' * rest} a: JUMPDEST PUSH %b"


def code(rng):
    out = b""
    for _ in range(rng.randrange(1, 18)):
        c = rng.randrange(6)
        if c == 0:
            out += bytes([rng.randrange(256)])
        elif c == 1:
            n = rng.randrange(33)
            out += bytes([0x5F + n]) + rng.randbytes(n)
        elif c == 2:
            out += bytes([rng.choice([0xE6, 0xE7, 0xE8]), rng.choice([0x5B, 0x5F, 0x60, 0x7F, 0x80, 81, 82, 90, rng.randrange(256)])])
        else:
            out += bytes([rng.choice([0, 1, 2, 0x15, 0x50, 0x5A, 0x5B, 0x80, 0x90, 0x36, 0x5F, 0x52])])
    if rng.random() < 0.3:
        out = out[:-1 - rng.randrange(len(out))] or out
    if rng.random() < 0.2:
        n = rng.randrange(1, 33)
        out += bytes([0x5F + n]) + rng.randbytes(rng.randrange(n))
    return out.hex()


def corpus(rng, n, thorough):
    r = [{"text": ""}, {"text": " ; only\n"}]
    r += [{"code": f"{o:02x}{x:02x}", "fork": "AMSTERDAM"} for o in (0xE6, 0xE7, 0xE8) for x in range(256)]
    r += [{"code": f"{o:02x}", "fork": f} for o in range(256) for f in ("OSAKA", "AMSTERDAM")]
    r += [{"code": f"{0x5f + k:02x}" + "ab" * j, "fork": "OSAKA"} for k in range(33) for j in {0, 1, k - 1, k, k + 1} if j >= 0]
    for o in OPS:
        r += [{"text": o}, {"text": o + " 1"}, {"text": o.lower()}]
    for k in range(0, 34):
        r += [{"text": f"PUSH{k} {v}"} for v in (0, 1, (1 << 8 * k) - 1, 1 << 8 * k)]
        r += [{"text": f"PUSH {v}"} for v in ((1 << 8 * k) - 1, 1 << 8 * k, f"0x{'00' * k}01")]
    for k in range(0, 260):
        for w in ("DUP", "SWAP", "DUPN", "SWAPN"):
            r.append({"text": f"{w} {k}"})
    for a in range(0, 32):
        r += [{"text": f"EXCHANGE {a} {b}"} for b in range(0, 32)]
    for k in range(240, 262):
        r.append({"text": "PUSH %a PUSH %b " + "POP " * k + "a: JUMPDEST b:"})
        r.append({"text": "PUSH %a PUSH1 %b " + "POP " * k + "b: JUMPDEST a: PUSH %b"})
    r += [{"text": far(rng, k)} for k in ([-70, -40, -38, -37, -36, -35, -34, 0, 3] if thorough else [-38, -36])]
    while len(r) < n:
        c = rng.random()
        if c < 0.5:
            r.append({"text": text(rng)})
        elif c < 0.75:
            r.append({"text": damage(rng, text(rng))})
        else:
            r.append({"code": code(rng), "fork": rng.choice(FORKS)})
    return r


def execute(recs, tag):
    d = f"{WORK}/asm"
    os.makedirs(d, exist_ok=True)
    base = f"{d}/{tag}-{os.getpid()}"

    def one(n):
        part = recs[n::8]
        with open(f"{base}.{n}.in", "w") as f:
            f.writelines(json.dumps(x) + "\n" for x in part)
        try:
            p = subprocess.run(common.capped([ASMH, f"{base}.{n}.in", f"{base}.{n}.out"]), capture_output=True, text=True, timeout=200)
            rc, err = p.returncode, p.stderr[-500:]
        except subprocess.TimeoutExpired:
            rc, err = -1, "no end"
        got = [json.loads(x) for x in open(f"{base}.{n}.out")] if os.path.exists(f"{base}.{n}.out") else []
        for e in ("in", "out"):
            if os.path.exists(f"{base}.{n}.{e}"):
                os.remove(f"{base}.{n}.{e}")
        if rc and len(got) < len(part):
            got.append(dict(part[len(got)], crash=rc, err=err))
        return got

    with ThreadPoolExecutor(8) as ex:
        return [x for g in ex.map(one, range(8)) for x in g]


def judge(recs, tag):
    """{index: (field, expected)} of the records the specification does not allow; TLC's figures."""
    d = f"{WORK}/asm"
    os.makedirs(d, exist_ok=True)
    bad, states = {}, 0

    def one(n):
        idx = list(range(n, len(recs), 8))
        path = f"{d}/{tag}-{os.getpid()}-{n}.json"
        with open(path, "w") as f:
            json.dump([recs[k] for k in idx], f)
        r = tlc("AsmTrace", env={"TRACES": path}, workers=1, heap="3g", timeout=800, jvm=["-Xss256m"])
        os.remove(path)
        if not r["ok"]:
            raise ToolError("TLC on AsmTrace:\n" + r["out"][-3000:])
        return {idx[int(a) - 1]: (b, c) for a, b, c in re.findall(r'<<\s*"BAD",\s*(\d+),\s*"(\w+)",\s*"([^"]*)"\s*>>', r["out"])}, r["distinct"]

    with ThreadPoolExecutor(8) as ex:
        for b, s in ex.map(one, range(8)):
            bad.update(b)
            states += s
    return bad, states


def falsify(rng, recs):
    out = []
    for r in rng.sample(recs, min(len(recs), 60)):
        r = json.loads(json.dumps(r))
        if "text" in r:
            if r["res"] == "err":
                r["res"] = "00"
            elif len(r["res"]) >= 2:
                k = rng.randrange(len(r["res"]))
                r["res"] = r["res"][:k] + ("0" if r["res"][k] != "0" else "1") + r["res"][k + 1:]
            else:
                continue
        elif r["ops"]:
            r["ops"][-1]["pc"] += 1
        else:
            continue
        out.append(r)
    return out


def check(prop="T01"):
    thorough = common.TIER == "thorough"
    chk = Check(prop, "model_checking")
    chk.assumptions += [
        "Texts and byte strings are generated; every instruction, every immediate byte of DUPN/SWAPN/EXCHANGE and every push width is covered systematically, the rest at random.",
        "A label defined twice and '0x' without digits are left open by the specification.",
    ]
    build("asmh")
    r = tlc("AsmMC", workers=8, timeout=1500, jvm=["-Xss64m"], cfg=mc(4 if thorough else 3))
    if not r["ok"]:
        raise ToolError("AsmMC:\n" + r["out"][-2500:])
    chk.add("states", r["distinct"])
    chk.add("transitions", r["states"])
    log(f"model: {r['distinct']} byte strings round-trip")
    rng = random.Random(SEED * 31 + 7)
    recs = execute(corpus(rng, 60000 if thorough else 9000, thorough), "c")
    log(len(recs), "records")
    for x in [x for x in recs if "crash" in x][:3]:
        chk.violation("crash", f"the process died on {json.dumps(x)[:300]}", {"kind": "asm", "record": x})
    recs = [x for x in recs if "crash" not in x]
    fake = falsify(rng, recs)
    bad, st = judge(recs + fake, "j")
    chk.add("states", st)
    chk.add("traces_validated_against_impl", len(recs))
    missed = [n for n in range(len(recs), len(recs) + len(fake)) if n not in bad]
    # A text with an open meaning cannot be falsified.
    if len(missed) > len(fake) // 4:
        raise ToolError(f"{len(missed)} of {len(fake)} falsified records were accepted")
    chk.add("falsified_records_rejected", len(fake) - len(missed))
    for x in recs[5000:5003]:
        chk.sample(x, 3)
    real = sorted((k for k in bad if k < len(recs)), key=lambda k: len(json.dumps(recs[k])))
    for k in real[:3]:
        x = recs[k]
        chk.violation(bad[k][0], f"{json.dumps(x)[:400]} ({bad[k][0]}; the specification says {bad[k][1][:200]!r})", {"kind": "asm", "record": x, "field": bad[k][0], "expected": bad[k][1]})
    return chk.finish()


def mc(n):
    path = f"{WORK}/asm/mc-{os.getpid()}.cfg"
    os.makedirs(f"{WORK}/asm", exist_ok=True)
    with open(path, "w") as f:
        f.write(re.sub(r"Max = .*", f"Max = {n}", open(f"{common.SPEC}/AsmMC.cfg").read()))
    return path
