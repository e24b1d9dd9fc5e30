----------------------------- MODULE CompilerMC -----------------------------
(* Sessions of one compiler instance, and what holds in all of them.  The same module, simulated
   (GenSpec), generates the sessions that are replayed on the real compiler. *)
EXTENDS Compiler, TLC, Json
CONSTANTS Codes, Forks, Names, Inputs, MaxFns, MaxOps, Aot

VARIABLES c, want, h

vars == <<c, want, h>>

Init == \E aot \in Aot :
  /\ c = New(aot)
  /\ want = <<>>                       \* what each function was translated from, told apart from c
  /\ h = <<[op |-> "new", v |-> IF aot THEN 1 ELSE 0]>>

\* What a user may do next, by kind.
Kinds == {"set", "translate", "jit", "run", "object", "free", "clear_ir", "clear", "drop"}
Choices(k) ==
  CASE k = "set" -> {e \in UNION {[op : {"set"}, key : {x}, v : Range(x)] : x \in Keys} :
                       e.v # c.set[e.key] /\ (e.key = "gas" => e.v > 0)}
    \* (a gas schedule, once given, can only be replaced by another)
    [] k = "translate" -> IF Len(c.fns) >= MaxFns THEN {}
         \* The name of code of an earlier module that is still held may not be given again.
         ELSE [op : {"translate"}, f : {Len(c.fns) + 1}, name : Names \ {c.fns[f].name : f \in {f \in Live(c) : c.fns[f].mod # c.mod}}, code : Codes, fork : Forks]
    [] k = "jit" -> {[op |-> "jit", f |-> f] : f \in {f \in Open(c) : JitOk(c, f)}}
    [] k = "run" -> {[op |-> "run", f |-> f, v |-> i] : f \in {f \in Live(c) : \E n \in 1..Len(h) : h[n].op = "jit" /\ h[n].f = f}, i \in Inputs}
    [] k = "object" -> IF c.aot /\ Open(c) # {} THEN {[op |-> "object"]} ELSE {}
    [] k = "free" -> IF c.aot THEN {} ELSE {[op |-> "free", f |-> f, name |-> c.fns[f].name] : f \in Open(c) \cup Live(c)}
    [] k = "drop" -> IF Len(h) > 8 THEN {[op |-> "drop"]} ELSE {}
    [] OTHER -> IF Len(c.fns) > 0 THEN {[op |-> k]} ELSE {}

Do(e) == /\ c' = After(c, e)
         /\ h' = Append(h, e)
         /\ want' = IF e.op = "translate" THEN Append(want, [code |-> e.code, fork |-> e.fork, set |-> c.set]) ELSE want

Next == /\ Len(h) < MaxOps /\ c.alive
        /\ \E k \in Kinds : \E e \in Choices(k) : Do(e)
Spec == Init /\ [][Next]_vars

\* Simulation: one kind drawn by weight, one operation of that kind drawn at random.
Weights == <<"set", "set", "set", "translate", "translate", "translate", "translate", "jit", "jit", "jit", "jit", "run", "run",
             "run", "run", "run", "run", "run", "run", "run", "object", "object", "free", "clear_ir", "clear_ir", "clear", "drop">>
GenNext == /\ Len(h) < MaxOps /\ c.alive
           /\ LET can == {n \in 1..Len(Weights) : Choices(Weights[n]) # {} /\ (Weights[n] = "drop" => Len(h) > MaxOps - 5)}
              IN Do(RandomElement(Choices(Weights[RandomElement(can)])))
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(h) < MaxOps /\ c.alive) \/ PrintT(<<"SESSION", ToJson(h)>>)

\* A function means what it was translated from, whatever was done since.
OwnMeaning == \A f \in 1..Len(c.fns) : want[f] = [code |-> c.fns[f].code, fork |-> c.fns[f].fork, set |-> c.fns[f].set]
\* In a finalised module everything has code (or the instance writes objects); in an open one nothing has.
Phases == \A f \in Open(c) : ~c.aot => (c.fns[f].st = "code" <=> c.fin)
\* Symbols that can be looked up are told apart by name.
Distinct == \A f, g \in Open(c) \cup Live(c) : f # g => c.fns[f].name # c.fns[g].name
\* Code only disappears by its own freeing, that of its module, Clear or Drop.
Last == h'[Len(h')]
Kept == [][\A f \in Live(c) : \/ f \in Live(c')
                              \/ Last.op \in {"clear", "drop"}
                              \/ Last.op = "free" /\ c.fns[Last.f].mod = c.fns[f].mod]_vars
\* An object or code of a module never changes once made.
Frozen == [][c.fin /\ c'.mod = c.mod => Len(c'.fns) = Len(c.fns) \/ c'.fns[Len(c'.fns)].st = "gone"]_vars
=============================================================================
