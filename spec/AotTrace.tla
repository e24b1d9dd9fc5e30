------------------------------ MODULE AotTrace ------------------------------
(* Judges sessions of the real compiler, linker and loader against Aot.tla. *)
EXTENDS Aot, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

Wrong(e, a) ==
  IF e.crash THEN IF e.want \in {"", "ok"} \/ e.op = "call" THEN "crash" ELSE ""
  ELSE IF e.op = "translate" /\ e.want # "ok" THEN ""
  ELSE IF e.op = "translate" /\ e.ok # TranslateOk(a.c, e.name) THEN "translate"
  ELSE IF e.op = "link" /\ e.ok # LinkOk(a, ToSetA(e.objs), e.v) THEN "link"
  \* Every requested symbol is found.
  ELSE IF e.op = "load" /\ (~e.ok \/ {a.c.fns[f].name : f \in a.libs[e.lib].fns} # ToSetA(e.found)) THEN "symbol"
  ELSE IF e.op \notin {"translate", "link", "load"} /\ ~e.ok THEN e.op
  ELSE IF e.op = "call" /\ (e.got # e.want \/ ~(e.f \in a.libs[e.lib].fns)) THEN "call"
  ELSE ""
RECURSIVE Judge1(_, _, _)
Judge1(rec, n, a) ==
  IF n > Len(rec) THEN <<0, "">>
  ELSE LET w == Wrong(rec[n], a)
       IN IF w # "" THEN <<n, w>>
          ELSE IF rec[n].op = "translate" /\ rec[n].want # "ok" THEN <<0, "">>
          ELSE Judge1(rec, n + 1, AfterA(a, rec[n]))
Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Report == LET v == Judge1(Recs[i].events, 1, NewA) IN v[2] # "" => PrintT(<<"BAD", i, v[1], v[2]>>)
=============================================================================
