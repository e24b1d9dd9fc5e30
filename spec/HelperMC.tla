------------------------------ MODULE HelperMC ------------------------------
(* Explores Helper.tla, and makes sessions to be replayed on the real runtime. *)
EXTENDS Helper, TLC, Json
CONSTANTS MaxOps, Profile, Workers, Helpers

VARIABLES c, s, h
vars == <<c, s, h>>

Kinds == CASE Profile = "pause" -> {"req", "gate", "kill", "pause", "resume", "clear", "dwell"}
           [] Profile = "fault" -> {"req", "gate", "kill", "clear", "expire"}
           [] OTHER -> {"req", "gate", "kill", "pause", "resume", "clear", "expire", "dwell"}
Verdicts == {"ok", "fail"} \cup Fatal
Ops == {[op |-> x, k |-> k, v |-> v] : x \in Kinds \cap {"gate"}, k \in Keys, v \in Verdicts}
       \cup {[op |-> x, k |-> k, v |-> ""] : x \in Kinds \cap {"req"}, k \in Keys}
       \cup {[op |-> x, k |-> 0, v |-> ""] : x \in Kinds \ {"req", "gate"}}

MCInit == c \in [w : Workers, helper : Helpers] /\ s = Init0 /\ h = 0
MCNext == /\ h < MaxOps /\ h' = h + 1 /\ UNCHANGED c
          /\ \E o \in Ops : Enabled(c, s, o) /\ s' \in After(c, s, o)
MCSpec == MCInit /\ [][MCNext]_vars

TypeOK == /\ s.up \in {"no", "up", "dead"} /\ s.depth \in Nat
          /\ \A n \in 1..Len(s.jobs) : s.jobs[n].k \in Keys
\* No more jobs at work than workers, and never two for one key unless one is stale.
Bounded == Cardinality(Running(s)) <= c.w
Once == \A k \in Keys : Cardinality(Asked(s, k)) <= 1 /\ (s.res[k] => Asked(s, k) = {})
\* Work only waits for a worker, or for a stopped or hung helper.
Busy == /\ Queued(s) # {} => Cardinality(Running(s)) = c.w
        /\ c.helper = "self" /\ s.depth = 0 => \A n \in Running(s) : s.jobs[n].st = "gate"
Helped == Running(s) # {} => s.up = "up"
\* From anywhere: resume, wait, and every request has been answered.
RECURSIVE Drained(_, _)
Drained(t, fuel) ==
  IF t.depth > 0 THEN \A u \in After(c, t, [op |-> "resume", k |-> 0, v |-> ""]) : Drained(u, fuel)
  ELSE IF Running(t) = {} THEN t.jobs = <<>>
  ELSE fuel > 0 /\ \A u \in After(c, t, [op |-> "expire", k |-> 0, v |-> ""]) : Drained(u, fuel - 1)
Answered == Drained(s, 8)
\* A pause starts nothing, and loses nothing that is resident.
Still == [][s.depth > 0 /\ s'.depth > 0 => /\ {<<j.k, j.stale>> : j \in {s'.jobs[n] : n \in AtGate(s')}} \subseteq {<<j.k, j.stale>> : j \in {s.jobs[n] : n \in AtGate(s)}} \cup {<<j.k, TRUE>> : j \in {s.jobs[n] : n \in AtGate(s)}}
                                        /\ \A k \in Keys : s'.res[k] => s.res[k]]_vars
\* Only a clear takes programs away.
Kept == [][(\E k \in Keys : s.res[k] /\ ~s'.res[k]) => \A k \in Keys : ~s'.res[k]]_vars
MCView == <<c, s, h>>

\* Sessions: what is expected after each operation is a hint on when to look; the judge is HelperTrace.
GenInit == c \in [w : Workers, helper : Helpers] /\ s = Init0 /\ h = <<>>
Likely(o) == CASE o.op \in {"req"} -> 3
               [] o.op = "gate" -> IF o.v = "ok" THEN 8 ELSE IF o.v = "fail" THEN 4 ELSE 1
               [] o.op \in {"pause", "resume"} -> 5
               [] o.op = "dwell" -> IF \E n \in 1..Len(h) : h[n].op = "dwell" THEN 0 ELSE 1
               [] o.op = "expire" -> IF Cardinality({n \in 1..Len(h) : h[n].op = "expire"}) >= 2 THEN 0 ELSE 2
               [] OTHER -> 2
GenNext == /\ Len(h) < MaxOps /\ UNCHANGED c
           /\ ~ \E n \in 1..Len(h) : h[n].op = "dwell"
           /\ LET E == {o \in Ops : Enabled(c, s, o)}
                  P == {<<o, n>> : o \in E, n \in 1..8}
                  Q == {p \in P : p[2] <= Likely(p[1])}
              IN \E p \in {RandomElement(Q)} :
                   LET o == p[1]
                       T == After(c, s, o)
                   IN \E t \in {CHOOSE t \in T : \A u \in T : t.spawns <= u.spawns} :
                        s' = t /\ h' = Append(h, [op |-> o.op, k |-> o.k, v |-> o.v, exp |-> Seen(c, t)])
GenSpec == GenInit /\ [][GenNext]_vars
Emit == ~(Len(h) = MaxOps \/ (h # <<>> /\ h[Len(h)].op = "dwell")) \/ PrintT(<<"SESSION", ToJson([cfg |-> c, ops |-> h])>>)
=============================================================================
