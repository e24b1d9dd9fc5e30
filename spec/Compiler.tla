------------------------------ MODULE Compiler ------------------------------
(* One compiler instance: settings, a module that functions are added to, and the code made of it.

   A function is added to the open module (Translate).  Asking for the code of one (Jit) or for an
   object file (Object) finalises the module; from then on it accepts no more functions until the
   instance is told to start over, keeping the code made so far (ClearIr) or not (Clear).  What a function does is settled by what it was translated from: the code, the fork and the
   settings of that moment.  Nothing that happens to other functions changes it. *)
EXTENDS Naturals, Sequences, FiniteSets

Keys == {"dedup", "dse", "single", "asserts", "inspect", "opt", "budget", "gas"}
Range(k) == CASE k = "opt" -> 0..3 [] k \in {"budget", "gas"} -> 0..2 [] OTHER -> 0..1
Defaults == [k \in Keys |-> CASE k \in {"dedup", "dse", "single"} -> 1 [] k = "opt" -> 2 [] OTHER -> 0]

\* fns[f]: what it was translated from (name, code, fork, set), the module (mod) and its state:
\*   "ir"    in the open module, no code yet
\*   "code"  executable
\*   "gone"  freed, cleared, or its module was thrown away
New(aot) == [aot |-> aot, set |-> Defaults, fin |-> FALSE, mod |-> 1, fns |-> <<>>, alive |-> TRUE]

Open(c) == {f \in 1..Len(c.fns) : c.fns[f].mod = c.mod /\ c.fns[f].st # "gone"}
NameTaken(c, n) == \E f \in Open(c) : c.fns[f].name = n
Live(c) == {f \in 1..Len(c.fns) : c.fns[f].st = "code"}
With(c, fs, st) == [c EXCEPT !.fns = [f \in 1..Len(c.fns) |-> IF f \in fs THEN [c.fns[f] EXCEPT !.st = st] ELSE c.fns[f]]]

SetTo(c, k, v) == [c EXCEPT !.set[k] = v]
\* A module that is finalised, or already has a function of that name, takes no more.
TranslateOk(c, n) == ~c.fin /\ ~NameTaken(c, n)
Translate(c, n, code, fork) ==
  [c EXCEPT !.fns = Append(@, [name |-> n, code |-> code, fork |-> fork, set |-> c.set, mod |-> c.mod,
                                st |-> IF TranslateOk(c, n) THEN "ir" ELSE "gone"])]
\* Code is made for the whole module at once.
JitOk(c, f) == ~c.aot /\ f \in Open(c)
Jit(c, f) == IF JitOk(c, f) THEN [With(c, Open(c), "code") EXCEPT !.fin = TRUE] ELSE c
Object(c) == [c EXCEPT !.fin = TRUE]
\* The code of one module is one piece of memory: it goes as a whole.
Free(c, f) == With(c, IF c.fns[f].st = "code" THEN {g \in Live(c) : c.fns[g].mod = c.fns[f].mod} ELSE {f}, "gone")
ClearIr(c) == [With(c, {f \in Open(c) : c.fns[f].st = "ir"}, "gone") EXCEPT !.fin = FALSE, !.mod = @ + 1]
Clear(c) == [With(c, 1..Len(c.fns), "gone") EXCEPT !.fin = FALSE, !.mod = @ + 1]
Drop(c) == [With(c, 1..Len(c.fns), "gone") EXCEPT !.alive = FALSE]

\* The state after operation e.
After(c, e) ==
  CASE e.op = "new" -> New(e.v = 1)
    [] e.op = "set" -> SetTo(c, e.key, e.v)
    [] e.op = "translate" -> Translate(c, e.name, e.code, e.fork)
    [] e.op = "jit" -> Jit(c, e.f)
    [] e.op = "object" -> Object(c)
    [] e.op = "free" -> Free(c, e.f)
    [] e.op = "clear_ir" -> ClearIr(c)
    [] e.op = "clear" -> Clear(c)
    [] e.op = "drop" -> Drop(c)
    [] OTHER -> c
=============================================================================
