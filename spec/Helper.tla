------------------------------- MODULE Helper -------------------------------
(* Compilation in a helper process: workers hand jobs to at most one helper, which can fail a job,
   die, hang, talk nonsense, be killed, be stopped and be continued.

   A state is a record
     res    which keys have a resident program
     jobs   those accepted and not answered, oldest first:
            st = "queued" (no worker yet), "sent" (the helper has not started it), "gate" (compiling)
            stale: requested before a clear; more: callers waiting besides the one that asked first;
            v: how the compilation will end, decided while the helper is stopped
     up     "no" (none), "up", "dead" (it died and nobody has noticed)
     depth  pauses not yet resumed
     succ, fail, disc, spawns   what has been counted

   An operation maps a state to the set of states that may follow. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys

Cfg0 == [w |-> 1, helper |-> "self"]
Init0 == [res |-> [k \in Keys |-> FALSE], jobs |-> <<>>, up |-> "no", depth |-> 0,
          succ |-> 0, fail |-> 0, disc |-> 0, spawns |-> 0]

Job(k) == [k |-> k, st |-> "queued", stale |-> FALSE, more |-> 0, v |-> ""]
Running(s) == {n \in 1..Len(s.jobs) : s.jobs[n].st # "queued"}
Queued(s) == {n \in 1..Len(s.jobs) : s.jobs[n].st = "queued"}
AtGate(s) == {n \in 1..Len(s.jobs) : s.jobs[n].st = "gate"}
Least(S) == CHOOSE n \in S : \A m \in S : n <= m
Without(q, D) == LET keep == {n \in 1..Len(q) : n \notin D}
                     Nth(m) == CHOOSE n \in keep : Cardinality({x \in keep : x <= n}) = m
                 IN [m \in 1..Cardinality(keep) |-> q[Nth(m)]]

\* The jobs D end without a program.
Lose(s, D) == LET old == Cardinality({n \in D : s.jobs[n].stale}) IN
              [s EXCEPT !.jobs = Without(s.jobs, D), !.disc = s.disc + old, !.fail = s.fail + Cardinality(D) - old]
\* The helper is gone, and with it what it was doing.
Crash(s) == [Lose(s, Running(s)) EXCEPT !.up = "no"]
Publish(s, n) == LET j == s.jobs[n] IN
                 IF j.stale THEN [s EXCEPT !.jobs = Without(s.jobs, {n}), !.disc = @ + 1]
                 ELSE [s EXCEPT !.jobs = Without(s.jobs, {n}), !.succ = @ + 1, !.res[j.k] = TRUE]

\* Helpers that cannot work: jobs fail soon ("missing", "exit", "noise"), or hang ("silent", "deaf").
Useless(c) == c.helper \in {"missing", "exit", "noise"}

\* Workers take jobs; a helper that is not stopped starts what it was sent.
RECURSIVE Settle(_, _)
Settle(c, s) ==
  IF Queued(s) # {} /\ Cardinality(Running(s)) < c.w
  THEN LET n == Least(Queued(s))
           sent(t) == [t EXCEPT !.jobs[n].st = "sent"]
           fresh == sent([s EXCEPT !.up = "up", !.spawns = @ + 1])
       IN IF Useless(c) THEN Settle(c, Lose(s, {n}))
          ELSE CASE s.up = "up" -> Settle(c, sent(s))
                 [] s.up = "no" -> Settle(c, fresh)
                 [] s.up = "dead" -> Settle(c, [Lose(s, {n}) EXCEPT !.up = "no"]) \cup Settle(c, fresh)
  ELSE {IF s.depth = 0 /\ s.up = "up" /\ c.helper = "self"
        THEN [s EXCEPT !.jobs = [n \in 1..Len(s.jobs) |-> IF s.jobs[n].st = "sent" THEN [s.jobs[n] EXCEPT !.st = "gate"] ELSE s.jobs[n]]]
        ELSE s}
SettleAll(c, S) == UNION {Settle(c, s) : s \in S}

Fatal == {"panic", "exit", "abort", "garbage"}
End(s, n, v) == CASE v = "ok" -> Publish(s, n)
                  [] v = "fail" -> Lose(s, {n})
                  [] v \in Fatal -> Crash(s)

Asked(s, k) == {n \in 1..Len(s.jobs) : s.jobs[n].k = k /\ ~s.jobs[n].stale}
Stale(s, k) == {n \in 1..Len(s.jobs) : s.jobs[n].k = k /\ s.jobs[n].stale}
GateOf(s, k) == {n \in AtGate(s) : s.jobs[n].k = k /\ s.jobs[n].v = ""}
Decided(s) == {n \in AtGate(s) : s.jobs[n].v # ""}

Enabled(c, s, o) ==
  CASE o.op = "req" -> Stale(s, o.k) = {} /\ \A n \in Asked(s, o.k) : s.jobs[n].more < 2
    [] o.op = "gate" -> GateOf(s, o.k) # {} /\ (s.depth > 0 => Decided(s) = {})
    [] o.op = "kill" -> s.up = "up" /\ c.helper = "self"
    [] o.op = "pause" -> s.depth < 3
    [] o.op = "expire" -> s.depth = 0 /\ Running(s) # {}
    [] o.op = "dwell" -> s.depth > 0 /\ Running(s) # {}
    [] OTHER -> TRUE

\* What may follow operation o in state s.
After(c, s, o) ==
  CASE o.op = "req" ->
         IF s.res[o.k] THEN {s}
         ELSE IF Asked(s, o.k) # {} THEN {[s EXCEPT !.jobs[Least(Asked(s, o.k))].more = @ + 1]}
         ELSE Settle(c, [s EXCEPT !.jobs = Append(@, Job(o.k))])
    [] o.op = "gate" ->
         LET n == Least(GateOf(s, o.k)) IN
         IF s.depth > 0 THEN {[s EXCEPT !.jobs[n].v = o.v]} ELSE Settle(c, End(s, n, o.v))
    [] o.op = "kill" -> IF Running(s) = {} THEN {[s EXCEPT !.up = "dead"]} ELSE Settle(c, Crash(s))
    [] o.op = "pause" -> {[s EXCEPT !.depth = @ + 1]}
    [] o.op = "resume" ->
         IF s.depth # 1 THEN {[s EXCEPT !.depth = IF @ = 0 THEN 0 ELSE @ - 1]}
         ELSE LET t == [s EXCEPT !.depth = 0]
                  u == IF Decided(t) = {} THEN t ELSE LET n == Least(Decided(t)) IN End(t, n, t.jobs[n].v)
              IN Settle(c, u)
    [] o.op = "clear" ->
         LET t == [Lose([s EXCEPT !.jobs = [n \in 1..Len(s.jobs) |-> [s.jobs[n] EXCEPT !.stale = TRUE, !.more = 0]]], Running(s))
                   EXCEPT !.up = "no", !.res = [k \in Keys |-> FALSE]]
         IN Settle(c, t)
    \* Time passes: what the helper has not answered is given up and the helper replaced.
    [] o.op = "expire" -> Settle(c, Crash(s))
    [] o.op = "dwell" -> {s}

Open(s, k) == LET J == {n \in 1..Len(s.jobs) : s.jobs[n].k = k}
                  RECURSIVE Sum(_)
                  Sum(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN 1 + s.jobs[n].more + Sum(S \ {n})
              IN Sum(J)
\* What can be seen from outside.
Seen(c, s) ==
  [open |-> [k \in Keys |-> Open(s, k)],
   gates |-> [k \in Keys |-> Cardinality(GateOf(s, k))],
   res |-> s.res,
   live |-> IF c.helper = "self" /\ s.up = "up" THEN 1 ELSE 0,
   stopped |-> IF c.helper = "self" /\ s.up = "up" /\ s.depth > 0 THEN 1 ELSE 0,
   paused |-> s.depth > 0,
   succ |-> s.succ, fail |-> s.fail, disc |-> s.disc]
=============================================================================
