#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text stays readable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
TR="crates/revmc-codegen/src/compiler/translate/mod.rs"
PASS="crates/revmc-codegen/src/bytecode/passes/"
BI="crates/revmc-builtins/src/lib.rs"
CTX="crates/revmc-context/src/lib.rs"
CALL=["EvmCompilerFn::call_with_interpreter: returned action, gas, stack, memory, host"]
LOWWHY="The 232 tests that run here check analysis dumps and never execute generated code; the repository's own execution tests are a fixed list of programs with hand-written expectations. "
p("C01","Compiled code computes the same values as the EVM",
 "For every bytecode, input and environment, code produced by the compiler that terminates normally or reverts leaves exactly the output bytes and operand-stack values that instruction-by-instruction EVM execution prescribes. This covers arithmetic, comparison, bitwise, hashing, stack-shuffling and environment-reading instructions at every operand value, whether the operands are known at compile time or only at run time.",
 ["programs","inputs"],"all bytecodes x all calldata/environments x all operand values, constant or dynamic",
 LOWWHY+"Operand space is 2^512 per instruction and each has a constant-folded, an inline and a builtin path.",
 [PASS+"const_fold.rs","crates/revmc-codegen/src/compiler/translate/peephole.rs",TR,BI,"crates/revmc-builtins/src/utils.rs"],
 [("constant folding",PASS+"const_fold.rs"),("peephole simplification","compiler/translate/peephole.rs"),("inline lowering and builtin calls",TR)],
 [("operand snapshots","compile-time-known operands per instruction",PASS+"block_analysis.rs")],CALL)
p("C02","Gas is charged exactly as the EVM charges it",
 "For every execution that stops, returns, reverts, suspends for a sub-call or reads the remaining gas, the gas left and the refund counter equal what per-instruction EVM metering gives, and an execution runs out of gas exactly when per-instruction metering would make the frame halt.",
 ["programs","inputs","configurations"],"all bytecodes x all gas limits x all forks; every gas observation point",
 LOWWHY+"Gas is charged per section, folded at compile time for known operands and charged inside builtins; the boundary gas limit differs for every program.",
 [PASS+"sections.rs",PASS+"memory_sections.rs","crates/revmc-codegen/src/bytecode/opcode.rs","crates/revmc-codegen/src/bytecode/info.rs",TR,"crates/revmc-builtins/src/ir.rs",BI,CTX],
 [("gas sections",PASS+"sections.rs"),("statically known memory expansion",PASS+"memory_sections.rs"),("dynamic gas in builtins",BI)],
 [("gas section","sum of static gas charged on entry",PASS+"sections.rs")],CALL)
p("C03","Control flow follows the bytecode",
 "Compiled code takes a jump exactly when EVM execution does and continues at the same destination: jumps to anything that is not a jump-destination instruction halt, conditional jumps with a zero condition fall through whatever the target, and running past the last byte stops successfully. This holds however the destination is computed: constant, merged from several paths, returned through internal calls, loaded from input, or inside code that analysis considers unreachable.",
 ["programs","inputs"],"all control-flow graphs, all ways of computing a destination, all branch outcomes",
 LOWWHY+"Jump resolution is a whole-program fixpoint with an invalidation step; a wrong resolution needs a particular graph shape.",
 [PASS+"block_analysis.rs",PASS+"dedup.rs","crates/revmc-codegen/src/bytecode/mod.rs",TR],
 [("abstract interpretation fixpoint and invalidation of suspect jumps",PASS+"block_analysis.rs"),("dynamic jump table",TR),("block redirects",PASS+"dedup.rs")],
 [("cfg","blocks and resolved edges",PASS+"block_analysis.rs")],CALL)
p("C04","Stack limits are enforced and no slot outside the stack is touched",
 "An execution that would pop from an empty operand stack or grow it past 1024 entries halts, and one that stays within those limits never halts for that reason; at no time does compiled code read or write outside the 1024 slots, nor use a slot whose value was never produced.",
 ["programs","inputs"],"all bytecodes and all entry heights, including heights reached through loops and calls of varying depth",
 LOWWHY+"Checks are hoisted to section entry and can be elided; only a program at the exact limit of a particular section distinguishes a wrong bound.",
 [PASS+"sections.rs",PASS+"dead_store_elim.rs","crates/revmc-codegen/src/compiler/translate/vstack.rs",TR,CTX],
 [("stack sections",PASS+"sections.rs"),("virtual stack materialisation","compiler/translate/vstack.rs"),("dead store elimination",PASS+"dead_store_elim.rs")],
 [("stack section","required inputs and maximal growth",PASS+"sections.rs")],CALL)
p("C05","Memory and buffer copies behave as in the EVM",
 "Every byte read from memory, calldata, code or return data has the value EVM execution gives it, memory grows to exactly the word-aligned size EVM execution gives (visible through the memory-size instruction and gas), reads past the end of calldata, code or external code yield zeros, and reads past the end of return data halt.",
 ["programs","inputs"],"all offsets and lengths including overlap, zero length and 64-bit/256-bit extremes; all orders of accesses",
 LOWWHY+"Expansion checks are removed when analysis believes memory is already large enough; wrong only on specific access orders across blocks.",
 [PASS+"memory_sections.rs",TR,"crates/revmc-builtins/src/utils.rs","crates/revmc-builtins/src/ir.rs",BI],
 [("memory sections",PASS+"memory_sections.rs"),("memory resize",BI),("copy helpers","crates/revmc-builtins/src/utils.rs")],
 [("memory length","bytes allocated so far",CTX)],CALL)
p("C06","Host state is read and written exactly as the EVM prescribes",
 "Storage, transient storage, logs, balances, account code queries, block hashes and self-destructs performed by compiled code reach the host with the same arguments, multiplicity and effect as EVM execution, including warm/cold accounting. In a static frame every state-modifying instruction halts and changes nothing.",
 ["programs","inputs"],"all bytecodes x all account/storage/access-list states x static and non-static frames",
 LOWWHY+"No stable test attaches a host with state; effects depend on prior warmth, original/current values and fork.",
 [BI,"crates/revmc-builtins/src/utils.rs",TR,CTX],
 [("host builtins",BI),("static-mode checks",BI)],
 [],["final journaled state, logs and self-destruct set of the host"])
p("C07","Sub-calls and creates suspend and resume exactly",
 "Each call or create instruction hands the caller the same request EVM execution would (kind, target, caller, value, static flag, forwarded gas, input bytes, output window, initcode, salt), and after the outcome is supplied execution continues with exactly the stack, memory, return data, gas and refund EVM execution would have, for any number and order of suspensions and any outcome.",
 ["programs","histories"],"all bytecodes with calls/creates, in straight line, loops and branches; all outcome sequences (success, revert, halt, any return data)",
 LOWWHY+"Stable tests never run a resume; live values must survive a native return and re-entry at a resume point chosen per call site.",
 [TR,BI,CTX,"crates/revmc-context/src/jit_evm.rs"],
 [("resume dispatch and stack save",TR),("call/create builtins",BI),("interpreter hand-over",CTX)],
 [("resume point","where the next entry continues",CTX)],["InterpreterAction and interpreter state at every suspension"])
p("C08","Rules of the selected fork and gas schedule are applied",
 "Code compiled for a protocol version accepts exactly the instructions of that version (others halt), uses that version's semantics and prices, and when a custom gas schedule is supplied every price comes from it. Compiling the same bytecode for different versions yields independent, correct results.",
 ["configurations","programs"],"all protocol versions x all opcodes x arbitrary gas schedules",
 LOWWHY+"Each opcode has availability and price per fork; tests fix one fork per test and default schedules.",
 ["crates/revmc-codegen/src/bytecode/info.rs","crates/revmc-codegen/src/bytecode/mod.rs","crates/revmc-codegen/src/compiler/mod.rs",TR,BI],
 [("opcode info tables","crates/revmc-codegen/src/bytecode/info.rs"),("gas parameters","crates/revmc-codegen/src/compiler/mod.rs")],[],CALL)
p("C09","Optimisation and inspection settings never change the outcome",
 "For every bytecode and input, turning block deduplication, dead-store elimination, unified error handling, stack inspection, debug assertions, the optimisation level or the analysis budget on or off does not change whether execution succeeds, reverts, halts or suspends, nor any output, gas, memory or host effect, nor, where stack inspection is on, the operand stack it reports.",
 ["configurations","programs","inputs"],"all combinations of the compiler's settings x all bytecodes",
 "Tests exercise one or two settings on fixed programs and inspect annotations; the product of settings and programs is never executed.",
 ["crates/revmc-codegen/src/compiler/mod.rs",PASS+"dedup.rs",PASS+"dead_store_elim.rs",PASS+"const_fold.rs",PASS+"block_analysis.rs",TR],
 [("analysis configuration","crates/revmc-codegen/src/bytecode/mod.rs")],[],CALL)
p("C10","Every byte string compiles, and compiles the same way every time",
 "For every byte string within the size limit, every protocol version and every supported configuration, analysis and code generation finish without panicking, hanging or producing malformed code, and repeating the compilation yields identical code.",
 ["programs","configurations"],"all byte strings (truncated immediates, unknown opcodes, deep stacks, dense jumps) x forks x configurations",
 "Tests compile well-formed programs; arbitrary contract bytes are attacker-chosen and a panic aborts the node or poisons a worker.",
 ["crates/revmc-codegen/src/bytecode/mod.rs",PASS+"block_analysis.rs","crates/revmc-codegen/src/compiler/mod.rs",TR],
 [("bytecode decoding","crates/revmc-codegen/src/bytecode/mod.rs"),("analysis budget",PASS+"const_fold.rs")],[],
 ["EvmCompiler::{translate,jit} result; printed code of two compilations"])
p("C11","Compilations sharing one compiler do not interfere",
 "A function compiled by a compiler instance behaves the same whatever other functions, with whatever settings, were compiled, executed, freed or failed before it on the same instance, until that function itself, or one finalised together with it, is freed or the instance is cleared or dropped.",
 ["histories","configurations"],"all sequences of translate/compile/run/change-setting/free/clear on one compiler",
 "Tests use a fresh compiler per case; leaked per-compilation state needs a particular order of operations to show.",
 ["crates/revmc-codegen/src/compiler/mod.rs",TR,"crates/revmc-builtins/src/ir.rs"],
 [("per-compilation reset","crates/revmc-codegen/src/compiler/mod.rs"),("cached builtins","crates/revmc-builtins/src/ir.rs")],
 [("compiler session","pending and finalized functions","crates/revmc-codegen/src/compiler/mod.rs")],["results of every live function after every step"])
p("C12","Ahead-of-time objects behave like in-memory code",
 "Bytecode compiled to an object file, linked into a shared library and loaded back exposes the requested symbol and, for every input, behaves exactly like the same bytecode compiled in memory.",
 ["programs","inputs"],"all bytecodes x inputs through the object/link/load route",
 "No stable test links or loads an object; the AOT route differs in symbol naming, builtin linkage and section settings.",
 ["crates/revmc-codegen/src/linker.rs","crates/revmc-codegen/src/compiler/mod.rs","crates/revmc-builtins/src/ir.rs","crates/revmc-runtime/src/runtime/worker.rs"],
 [("object writing","crates/revmc-codegen/src/compiler/mod.rs"),("linking","crates/revmc-codegen/src/linker.rs")],[],["loaded symbol run against a host"])
RT="crates/revmc-runtime/src/runtime/"
RWHY="The runtime tests that run here cannot start a compiler, so admission, publication, clearing and shutdown are never interleaved with compilations; "
p("R01","A lookup only ever returns code for exactly that bytecode and fork",
 "Whatever has been requested, compiled, loaded, cleared or evicted before, a lookup for a code hash and protocol version returns either a request to interpret or a program compiled from that code for that version; two requests that differ in either never share a program.",
 ["histories","schedules","inputs"],"all histories of lookups, compilations, preloads, clears over several codes and versions, all thread interleavings",
 RWHY+"a mixed-up key needs two entries alive at once.",
 [RT+"mod.rs",RT+"backend.rs",RT+"storage.rs",RT+"api.rs"],
 [("resident map keyed by code hash and version",RT+"mod.rs"),("publication of worker results",RT+"backend.rs")],
 [("resident map","programs visible to lookups",RT+"backend.rs")],["program returned by lookup, executed"])
p("R02","Hot code is compiled once; limits are respected",
 "Observed code is compiled only after the configured number of misses and only when size, queue and residency limits allow; while a compilation for a key is queued or running, or its result is resident, no second compilation of that key starts. Every admitted job produces exactly one publication, failure record or discard.",
 ["histories","schedules","configurations"],"all interleavings of lookups, worker completions and clears, all thresholds and limits",
 RWHY+"counting and de-duplication are only visible under concurrent misses.",
 [RT+"backend.rs",RT+"worker.rs",RT+"config.rs"],
 [("hotness tracking and admission",RT+"backend.rs"),("worker pool queue",RT+"worker.rs")],
 [("entries","per-key lifecycle: cold, working, failed, resident",RT+"backend.rs")],["number of compiler invocations per key; lookup results; statistics"])
p("R03","Clearing takes effect and stays in effect",
 "After a clear of resident code has been processed, lookups miss until a compilation requested after the clear finishes, and a compilation started before the clear never publishes its result or disturbs a later request for the same code. Clearing persisted artifacts removes them so that a restart finds none.",
 ["histories","schedules"],"all interleavings of clear with queued, running and finished compilations and with re-requests of the same key",
 RWHY+"the dangerous order is compile-start, clear, re-request, old-result-arrives.",
 [RT+"backend.rs",RT+"mod.rs",RT+"storage.rs"],
 [("generation counter",RT+"backend.rs")],
 [("generation","bumped by clears; stale results are discarded",RT+"backend.rs")],["lookup results, compile counts, artifact directory"])
p("R04","Every blocking request is answered",
 "Every synchronous compile, clear or shutdown request made against the runtime returns, whatever the order of compilations, failures, panics, clears, evictions and shutdown, and a synchronous compile returns only when its request has been resolved: afterwards a lookup finds the code, unless the compilation failed or was refused by the limits, or the code was cleared or evicted meanwhile.",
 ["schedules","fault_sequences","histories"],"all schedules of requests, worker results and shutdown; all failure points of the compiler",
 RWHY+"lost wake-ups need a specific interleaving.",
 [RT+"mod.rs",RT+"backend.rs",RT+"worker.rs"],
 [("notifiers",RT+"backend.rs"),("shutdown drain",RT+"backend.rs")],
 [("pending notifiers","waiters attached to a key",RT+"backend.rs")],["return of the blocking call under a watchdog"])
p("R05","Code in use is never freed",
 "A program handed out by a lookup stays executable for as long as the caller holds it, through eviction, clears, replacement, failures and shutdown of the runtime; when the last holder and the runtime let go, its memory is released.",
 ["schedules","histories"],"all orders of lookup, hold, run, evict, clear, shutdown, drop",
 RWHY+"use-after-free of native code shows only if the allocator reuses the page.",
 ["crates/revmc-runtime/src/runtime/worker.rs",RT+"backend.rs",RT+"storage.rs","crates/revmc-context/src/jit_evm.rs"],
 [("reference-counted program backing",RT+"worker.rs"),("idle and budget eviction",RT+"backend.rs")],
 [("backing","owner of the machine code",RT+"worker.rs")],["liveness of code ranges in the backend; execution of held programs"])
p("R06","Statistics account for every event",
 "At every quiescent moment the reported counters satisfy the accounting identities implied by the history: every non-blocking lookup has been counted exactly once as a hit, a miss or a dropped event (except those whose event a clear discards unprocessed); dispatched compilations equal successes plus failures plus those discarded by a clear plus those in flight; resident, pending and queue figures equal what is actually resident, running and queued; and counters never go backwards.",
 ["histories","schedules"],"all histories of lookups, compilations, failures, clears and evictions",
 RWHY+"identities over long histories are not assertable from single-step tests.",
 [RT+"stats.rs",RT+"backend.rs",RT+"mod.rs"],[("counters",RT+"stats.rs")],[],["stats snapshot"])
p("R07","Disabled, paused and blocking modes do what they say",
 "A disabled runtime starts no compilation for lookups and always answers interpret; pausing an out-of-process compiler stops its helper and compiles nothing until every pause is resumed, then compilation works again, and pausing never blocks or affects lookups; a blocking runtime answers the first lookup of compilable code with the compiled program or, if compilation fails, with interpret. Switching modes at any time loses no resident code.",
 ["configurations","histories","schedules"],"all sequences of mode switches interleaved with lookups and compilations",
 RWHY+"mode switches race with queued work.",
 [RT+"mod.rs",RT+"backend.rs",RT+"config.rs"],[("enabled/paused flags",RT+"mod.rs")],[],["lookup results and compiler invocations"])
p("R08","A compiler fault never harms execution",
 "If compilation of some code reports an error or exceeds limits or, with an out-of-process compiler, if the helper panics, crashes, hangs, exits or answers garbage, then lookups of that code keep answering interpret, other codes still get compiled, resident programs keep working and no request is left hanging beyond the configured timeout.",
 ["fault_sequences","schedules"],"all sequences of compiler outcomes (ok, error, panic, crash, hang, bad reply) over jobs and workers",
 "Helper protocol tests run without a compiler; faults at each protocol step are not injected.",
 [RT+"worker.rs",RT+"out_of_process.rs",RT+"backend.rs"],
 [("panic isolation in workers",RT+"worker.rs"),("helper process supervision",RT+"out_of_process.rs")],
 [],["lookup results after injected faults"])
p("R09","Stored artifacts round-trip and survive I/O errors",
 "An artifact stored under a key and loaded later from the same store has byte-identical contents and carries the same key, symbol and length, or is absent; after an I/O error at any point of a store, loading yields the old artifact, the new one or nothing, never a mixture, a library that is already loaded is never overwritten, unrelated artifacts are unaffected, and a cleared artifact is gone.",
 ["fault_sequences","histories","inputs"],"all keys, contents and store/load/remove sequences; an I/O error at every file-system step",
 "Tests store and load once without faults.",
 [RT+"storage.rs",RT+"config.rs",RT+"backend.rs"],[("artifact store",RT+"storage.rs")],[],["load results; directory contents"])
p("R10","Running transactions with the runtime gives the same results as without",
 "Executing any transaction or call tree through the runtime-backed executor, with any mix of contracts compiled, pending or interpreted at each frame, yields the same result, gas, logs and post-state as the plain interpreter, including nested calls, creates, reverts, delegation and self-calls.",
 ["programs","histories","schedules"],"all call trees and all assignments of compiled/interpreted to frames, changing over time",
 "Stable tests cannot run compiled frames; the frame hand-over between the two engines is per-frame state.",
 ["crates/revmc-runtime/src/revm_evm.rs","crates/revmc-runtime/src/alloy_evm.rs","crates/revmc-context/src/jit_evm.rs",CTX],
 [("frame dispatch","crates/revmc-context/src/jit_evm.rs"),("lookup per frame","crates/revmc-runtime/src/revm_evm.rs")],[],["ResultAndState of both executors"])
p("R11","An inspector is told the same whether code is compiled or interpreted",
 "An inspector attached to the runtime-backed executor is told of the same call and create frames, with the same inputs and outcomes and in the same order, the same self-destructs and, for frames that do not halt, the same logs through its log hook, as when plain revm runs the transaction; replacing an outcome from a frame hook has the same effect. Step-level hooks are not part of this.",
 ["programs","histories"],"all call trees, all assignments of compiled/interpreted to frames, all inspectors that observe or replace frame outcomes",
 "Stable tests cannot run compiled frames, so the inspector path of the executors is never exercised with one.",
 ["crates/revmc-runtime/src/revm_evm.rs","crates/revmc-runtime/src/alloy_evm.rs","crates/revmc-context/src/jit_evm.rs",BI],
 [("inspected frame dispatch","crates/revmc-runtime/src/revm_evm.rs"),("inspected frame dispatch","crates/revmc-context/src/jit_evm.rs")],[],["calls the inspector receives from both executors"])
p("T01","Assembly and disassembly round-trip",
 "Assembling text yields the bytes the mnemonics denote or a reported error, never a panic or silently different bytes; printing any bytecode as assembly and assembling the result gives back the same instructions and immediates, except that bytecode holding undefined, truncated or invalidly encoded instructions may print to text that the assembler rejects, but never to text that assembles to something else.",
 ["inputs","programs"],"all byte strings and all assembly texts (labels, immediates of every width, comments, errors)",
 "Tests list examples; truncated pushes, label-width choices and invalid immediates are combinatorial.",
 ["crates/revmc-codegen/src/bytecode/asm.rs","crates/revmc-codegen/src/bytecode/fmt.rs","crates/revmc-codegen/src/bytecode/opcode.rs"],
 [("assembler","crates/revmc-codegen/src/bytecode/asm.rs"),("opcode formatting","crates/revmc-codegen/src/bytecode/opcode.rs")],[],["parse_asm output; formatted opcodes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
