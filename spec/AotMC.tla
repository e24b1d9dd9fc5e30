------------------------------- MODULE AotMC -------------------------------
(* All ways of translating, writing objects, linking and loading, within bounds; simulated, the
   sessions that are replayed on the real compiler, linker and loader. *)
EXTENDS Aot, TLC, Json
CONSTANTS Codes, Forks, Names, Inputs, MaxFns, MaxObjs, MaxLibs, MaxOps, MaxSets

VARIABLES a, h, was
vars == <<a, h, was>>
\* was: what every object and every library was made of, noted when it was made.
Init == a = NewA /\ h = <<[op |-> "new", v |-> 1]>> /\ was = [objs |-> <<>>, libs |-> <<>>]

c == a.c
Kinds == {"set", "translate", "object", "clear_ir", "link", "load", "call"}
Sets == Cardinality({n \in 1..Len(h) : h[n].op = "set"})
Choices(k) ==
  CASE k = "set" -> IF Sets >= MaxSets THEN {} ELSE
                    {e \in UNION {[op : {"set"}, key : {x}, v : Range(x)] : x \in Keys} :
                       e.v # c.set[e.key] /\ (e.key = "gas" => e.v > 0)}
    [] k = "translate" -> IF Len(c.fns) >= MaxFns \/ c.fin THEN {}
         ELSE [op : {"translate"}, f : {Len(c.fns) + 1}, name : {n \in Names : ~NameTaken(c, n)}, code : Codes, fork : Forks]
    [] k = "object" -> IF Open(c) # {} /\ Len(a.objs) < MaxObjs THEN {[op |-> "object"]} ELSE {}
    [] k = "clear_ir" -> IF c.fin THEN {[op |-> k]} ELSE {}
    [] k = "link" -> IF a.objs = <<>> \/ Len(a.libs) >= MaxLibs THEN {}
         ELSE {[op |-> "link", lib |-> Len(a.libs) + 1, objs |-> s, v |-> w] :
                 s \in {<<x>> : x \in 1..Len(a.objs)} \cup {p \in (1..Len(a.objs)) \X (1..Len(a.objs)) : p[1] # p[2]}, w \in Ways}
    [] k = "load" -> {[op |-> "load", lib |-> l] : l \in {l \in 1..Len(a.libs) : a.libs[l].ok /\ ~a.libs[l].loaded}}
    [] k = "call" -> {[op |-> "call", lib |-> l, f |-> f, name |-> c.fns[f].name, v |-> i] :
                        l \in {l \in 1..Len(a.libs) : a.libs[l].loaded}, f \in 1..Len(c.fns), i \in Inputs}
CallOk(e) == e.op = "call" => e.f \in a.libs[e.lib].fns
Do(e) == /\ CallOk(e)
         /\ a' = AfterA(a, e) /\ h' = Append(h, e)
         /\ was' = CASE e.op = "object" -> [was EXCEPT !.objs = Append(@, {[name |-> c.fns[f].name, code |-> c.fns[f].code, fork |-> c.fns[f].fork, set |-> c.fns[f].set] : f \in Open(c)})]
                     [] e.op = "link" /\ LinkOk(a, ToSetA(e.objs), e.v) -> [was EXCEPT !.libs = Append(@, UNION {was.objs[o] : o \in ToSetA(e.objs)})]
                     [] e.op = "link" -> [was EXCEPT !.libs = Append(@, {})]
                     [] OTHER -> was
Next == Len(h) < MaxOps /\ \E k \in Kinds : \E e \in Choices(k) : Do(e)
Spec == Init /\ [][Next]_vars
View == <<a, was, Len(h), Sets>>

Weights == <<"set", "set", "translate", "translate", "translate", "translate", "object", "clear_ir", "link", "link", "link",
             "load", "load", "load", "call", "call", "call", "call", "call", "call">>
Some(k) == IF k = "call" THEN {e \in Choices(k) : CallOk(e)}
           ELSE IF k = "link" /\ RandomElement(1..3) > 1 THEN {e \in Choices(k) : e.v = 0} ELSE Choices(k)
GenNext == /\ Len(h) < MaxOps
           /\ \E n \in {RandomElement({n \in 1..Len(Weights) : Some(Weights[n]) # {}})} :
              \E e \in {RandomElement(Some(Weights[n]))} : Do(e)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(h) < MaxOps \/ PrintT(<<"SESSION", ToJson(h)>>)

\* What later happens to the compiler does not reach objects and libraries already made.
Lasting == /\ \A o \in 1..Len(a.objs) : was.objs[o] = {[name |-> c.fns[f].name, code |-> c.fns[f].code, fork |-> c.fns[f].fork, set |-> c.fns[f].set] : f \in a.objs[o]}
           /\ \A l \in 1..Len(a.libs) : was.libs[l] = {[name |-> c.fns[f].name, code |-> c.fns[f].code, fork |-> c.fns[f].fork, set |-> c.fns[f].set] : f \in a.libs[l].fns}
\* A symbol of a library stands for exactly one function.
OneEach == \A l \in 1..Len(a.libs) : \A f \in a.libs[l].fns : Symbol(a, l, c.fns[f].name) = {f}
=============================================================================
