----------------------------- MODULE RuntimeMC -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Runtime.tla: every interleaving of a bounded  *)
(* number of calls, compilations that succeed or fail, store faults,       *)
(* shutdowns and restarts, for a family of configurations.                 *)
(***************************************************************************)
EXTENDS Runtime

CONSTANTS MaxCalls,   \* API calls in a behaviour
          MaxOpen,    \* calls in progress at a time
          Select      \* which configurations

Base == [nk |-> 2, elig |-> {1, 2}, enabled |-> TRUE, blocking |-> FALSE, aot |-> FALSE, store |-> FALSE,
         thr |-> 1, pend |-> 8, workers |-> 1, qcap |-> 2, chan |-> 2, budget |-> -1, idle |-> 0]
Plain == {"lookup", "jit", "sync", "res"}
Configs ==
  ("plain"    :> [cfg |-> Base, ops |-> Plain]
  @@ "hot"    :> [cfg |-> [Base EXCEPT !.thr = 2, !.nk = 1, !.elig = {1}], ops |-> {"lookup", "get", "jit", "res", "restart"}]
  @@ "tight"  :> [cfg |-> [Base EXCEPT !.pend = 1, !.qcap = 1, !.chan = 1], ops |-> Plain]
  @@ "two"    :> [cfg |-> [Base EXCEPT !.workers = 2, !.nk = 1, !.elig = {1}], ops |-> Plain]
  @@ "budget" :> [cfg |-> [Base EXCEPT !.budget = 1], ops |-> {"lookup", "jit", "sync"}]
  @@ "store"  :> [cfg |-> [Base EXCEPT !.store = TRUE, !.aot = TRUE, !.nk = 1, !.elig = {1}],
                  ops |-> {"lookup", "sync", "res", "per", "all", "fault", "restart"}]
  @@ "mixed"  :> [cfg |-> [Base EXCEPT !.store = TRUE, !.nk = 1, !.elig = {1}], ops |-> {"jit", "aot", "sync", "res", "all"}]
  @@ "modes"  :> [cfg |-> [Base EXCEPT !.enabled = FALSE, !.nk = 1, !.elig = {1}, !.chan = 1],
                  ops |-> {"lookup", "sync", "block", "on", "off", "pause", "resume", "res"}]
  @@ "block"  :> [cfg |-> [Base EXCEPT !.blocking = TRUE, !.elig = {1}], ops |-> {"lookup", "get", "res", "restart"}])

VARIABLES which,  \* the configuration
          s, calls,
          base,   \* programs made before the last clear have smaller numbers
          last    \* the call that returned last
vars == <<which, s, calls, base, last>>

c == Configs[which].cfg
Kinds == Configs[which].ops
NoCall == [op |-> "", k |-> 0, d |-> "", n |-> 0]

Init == /\ which \in Select
        /\ s = [Down({}, {}) EXCEPT !.ops = Empty]
        /\ calls = 0 /\ base = 0 /\ last = NoCall

Issue(op, k, ks, w, on) ==
  /\ calls < MaxCalls
  /\ Cardinality(DOMAIN s.ops) < MaxOpen
  /\ s.st # "down"
  /\ \A id \in DOMAIN s.ops : s.ops[id].op \notin {"down", "up"}    \* a call holds the runtime alive
  /\ calls' = calls + 1
  /\ s' = Call(s, calls + 1, op, k, ks, w, on)
  /\ UNCHANGED <<which, base, last>>

Up == /\ s.st = "down" /\ DOMAIN s.ops = {}
      /\ s' = Call(s, 1000, "up", 0, <<>>, "", FALSE)
      /\ UNCHANGED <<which, calls, base, last>>

Calling ==
  \/ \E k \in 1..c.nk, op \in {"lookup", "get", "jit", "sync", "block"} \intersect Kinds : Issue(op, k, <<>>, "", FALSE)
  \/ \E w \in {"res", "per", "all"} \intersect Kinds : Issue("clear", 0, <<>>, w, FALSE)
  \/ "aot" \in Kinds /\ Issue("aot", 0, <<1>>, "", FALSE)
  \/ "on" \in Kinds /\ Issue("enable", 0, <<>>, "", TRUE)
  \/ "off" \in Kinds /\ Issue("enable", 0, <<>>, "", FALSE)
  \/ \E op \in {"pause", "resume"} \intersect Kinds : Issue(op, 0, <<>>, "", FALSE)
  \/ "restart" \in Kinds /\ DOMAIN s.ops = {} /\ Issue("down", 0, <<>>, "", FALSE)

Fault == /\ "fault" \in Kinds
         /\ \E f \in {"load", "store", "clear", "gone", "bad"} : f \notin s.sf /\ Cardinality(s.sf) < 1 /\ s' = [s EXCEPT !.sf = @ \union {f}]
         /\ UNCHANGED <<which, calls, base, last>>
Mend  == /\ "fault" \in Kinds /\ s.sf # {}
         /\ s' = [s EXCEPT !.sf = {}]
         /\ UNCHANGED <<which, calls, base, last>>

\* A compilation ends.
Compile == /\ \E n \in DOMAIN s.jobs, ok \in BOOLEAN :
                s.jobs[n].st = "r" /\ s' = [s EXCEPT !.jobs[n].st = IF ok THEN "ok" ELSE "bad"]
           /\ UNCHANGED <<which, calls, base, last>>
Callback == /\ s.bpc = "cb" /\ s' = [s EXCEPT !.bpc = "pub"]
            /\ UNCHANGED <<which, calls, base, last>>
Return == /\ \E id \in DOMAIN s.ops :
               /\ s.ops[id].pc = "d"
               /\ last' = [op |-> s.ops[id].op, k |-> s.ops[id].k, d |-> s.ops[id].d, n |-> s.ops[id].n]
               /\ s' = Gc([s EXCEPT !.ops = Without(@, {id})])
          /\ UNCHANGED <<which, calls, base>>
Internal == /\ s' \in Silent(c, s, 0, 0)
            /\ base' = IF s'.gen # s.gen \/ (s'.st = "down" /\ s.st # "down") THEN s.nx ELSE base
            /\ UNCHANGED <<which, calls, last>>

Progress == Compile \/ Callback \/ Return \/ Internal
Next == Calling \/ Up \/ Fault \/ Mend \/ Progress
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress) /\ WF_vars(Up)

\* -- properties ---------------------------------------------------------------
\* R01
OnlyItsOwn == RightProgram(s)
\* R02
Flights == SingleFlight(s) /\ OneJob(s)
Limits ==
  /\ s.pend <= c.pend
  /\ Cardinality(Waiting(s)) <= c.workers * c.qcap
  /\ Len(s.chan) <= c.chan /\ Len(s.ev) <= c.chan
\* R03: what is resident was requested after the last clear (or loaded from the store after it).
NothingOld == \A k \in DOMAIN s.res : s.res[k] >= base
\* R04
NobodyForgotten == Attended(s)
\* R05
NothingDangling == HeldExist(s)
\* R06
Balanced == Accounted(s)
\* R07: a lookup finds code only while the runtime is switched on.
OffMeansOff == last.op = "lookup" /\ last.d = "compiled" => last.k \in c.elig
\* R04 as liveness: every call returns.
Answered == <>[](\A id \in DOMAIN s.ops : FALSE)
=============================================================================
