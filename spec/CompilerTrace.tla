---------------------------- MODULE CompilerTrace ----------------------------
(* Judges sessions of the real compiler against Compiler.tla, one event at a time, and repeated
   compilations of one byte string. *)
EXTENDS Compiler, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

ToSet(s) == {s[n] : n \in 1..Len(s)}

\* Functions whose code was asked for and is to be there.
Asked(rec, n, c) == {f \in Live(c) : \E m \in 1..n : rec[m].op = "jit" /\ rec[m].f = f}
Wrong(rec, n, c, c2) ==
  LET e == rec[n] IN
  IF e.crash THEN IF e.want \in {"", "ok"} \/ e.op = "run" THEN "crash" ELSE ""
  ELSE IF e.op = "translate" /\ e.want # "ok" THEN ""          \* fails on its own, too
  ELSE IF e.op = "translate" /\ e.ok # TranslateOk(c, e.name) THEN "translate"
  ELSE IF e.op # "translate" /\ ~e.ok THEN e.op
  ELSE IF e.op \in {"run", "object"} /\ e.got # e.want THEN e.op
  ELSE IF ToSet(e.live) # Asked(rec, n, c2) THEN "live"
  ELSE ""
\* A code that does not compile even alone ends the session's relevance here.
RECURSIVE Judge1(_, _, _)
Judge1(rec, n, c) ==
  IF n > Len(rec) THEN <<0, "">>
  ELSE LET c2 == After(c, rec[n])
           w == Wrong(rec, n, c, c2)
       IN IF w # "" THEN <<n, w>>
          ELSE IF rec[n].op = "translate" /\ rec[n].want # "ok" THEN <<0, "">>
          ELSE Judge1(rec, n + 1, c2)
Session(r) == Judge1(r.events, 1, New(FALSE))

\* Compiling one byte string under fixed settings: always succeeds, always with the same result.
Repeat(r) ==
  IF r.died THEN <<1, "died">>
  ELSE IF ~r.fine THEN <<1, "failed">>
  ELSE IF Cardinality(ToSet(r.digests)) # 1 THEN <<2, "differs">>
  ELSE <<0, "">>

Verdict(r) == IF r.kind = "session" THEN Session(r) ELSE Repeat(r)
Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Report == LET v == Verdict(Recs[i]) IN v[2] # "" => PrintT(<<"BAD", i, v[1], v[2]>>)
=============================================================================
