RT = ("TLC: exhaustive model checking of Runtime.tla (RuntimeMC) and trace validation of histories of the real runtime (RuntimeTrace)",
      "model_checking",
      "Every interleaving of a few calls in the model; random gated histories of the real runtime on real threads, each of which must be a behaviour of the model. Compilation outcomes and times are chosen by the harness through fake-llvm.")
CHECKS = {p: RT for p in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08")}
for p in ("R07", "R08"):
    CHECKS[p] = (RT[0] + "; HelperMC and HelperTrace likewise for compilation in a helper process", RT[1],
                 RT[2] + " Helper sessions use a real helper process that is made to fail, panic, exit, hang, answer garbage, be killed, stopped and continued.")
CHECKS["T01"] = ("TLC: exhaustive round-trip of Asm.tla over short byte strings (AsmMC) and validation of what the real assembler, decoder and printers made of generated texts and codes (AsmTrace)",
      "model_checking",
      "Asm.tla defines assembling (labels, macros, immediates, errors), decoding and printing; every record of the real code must equal it. Systematic over instructions, immediates and push widths; random over programs and damaged texts.")
CHECKS["C10"] = ("TLC: CompilerMC model-checked exhaustively; byte strings compiled four times in two processes and AOT objects of TLC-simulated sessions, judged by CompilerTrace",
      "model_checking",
      "Byte strings up to 49152 bytes, generated, mutated and adversarial, in all forks and settings; code generation ends at the IR handed to the stand-in backend, whose verifier decides well-formedness.")
CHECKS["C11"] = ("TLC: CompilerMC model-checked exhaustively; sessions simulated from it replayed on the real compiler and judged by CompilerTrace",
      "model_checking",
      "Sessions of translate, compile, run, free, clear, failure and setting changes on one instance; each run must equal what the function does when compiled alone in a fresh process.")
CHECKS["C12"] = ("TLC: AotMC (objects, libraries, symbols) model-checked exhaustively; sessions simulated from it replayed through the real compiler, linker and loader, judged by AotTrace",
      "model_checking",
      "Every call of a loaded symbol must equal the same bytecode compiled in memory in a fresh process; objects are the stand-in backend's, assembled, linked (cc, gcc, clang; lld) and loaded with the system's tools.")
CHECKS["R09"] = ("TLC: StoreMC model-checked exhaustively with an error at every file-system step; simulated sessions and a sweep of failing system calls replayed on the real store, judged by StoreTrace",
      "model_checking",
      "Errors are injected by a seccomp filter at the n-th call of each kind; one thread uses the store at a time, as the runtime does.")
TXT = "worlds of contracts executed by the real executors and plain revm, judged by TxTrace"
CHECKS["R10"] = ("TLC: TxMC (frames, engines, lookups) model-checked exhaustively; " + TXT,
      "model_checking",
      "Worlds of up to seven contracts in six executor modes; results, states, database calls and frame hand-over. Halt reasons, and logs of frames that halt, are not compared.")
CHECKS["R11"] = ("TLC: TxMC model-checked exhaustively; inspected " + TXT,
      "model_checking",
      "As R10 with inspectors that record and replace outcomes; compared are frame starts and ends, logs and self-destructs.")
NA = {}
