------------------------------- MODULE Runtime -------------------------------
(***************************************************************************)
(* The JIT runtime (crates/revmc-runtime): lookups, the command channel,   *)
(* the backend thread, the worker pool, the resident map, the artifact     *)
(* store, eviction, statistics, start and shutdown.                        *)
(*                                                                         *)
(* Everything is a function from a configuration c and a state record s to *)
(* the set of states one internal step can lead to (Silent), or to the     *)
(* state after an observable event.  RuntimeTrace.tla constrains these by  *)
(* a trace recorded from the implementation; RuntimeMC.tla explores them   *)
(* exhaustively within bounds and checks the design-level properties.      *)
(*                                                                         *)
(* Keys are 1..c.nk.  c.elig: keys whose code may be compiled.  Programs   *)
(* and compilations are numbered by s.nx.  Times are milliseconds of the   *)
(* trace (0 throughout when idle eviction is off).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [none |-> TRUE]
Orphan == 1000000    \* generation of the compilations a shutdown left behind

\* -- generic helpers ------------------------------------------------------
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]
Range(f) == {f[x] : x \in DOMAIN f}
Empty == [x \in {} |-> 0]

Zero == [hits |-> 0, misses |-> 0, dropped |-> 0, cdropped |-> 0, evict |-> 0,
         disp |-> 0, succ |-> 0, fail |-> 0, disc |-> 0]
Bump(s, f) == [s EXCEPT !.stat[f] = @ + 1]

Thr(c) == IF c.blocking THEN 0 ELSE c.thr
Enabled0(c) == c.enabled \/ c.blocking

\* A process without a runtime.  store: keys with an artifact, junk: those that cannot be loaded; sf: store operations that fail.
Down(store, sf) ==
  [st |-> "down", en |-> FALSE, depth |-> 0, chan |-> <<>>, ev |-> <<>>, ent |-> Empty,
   res |-> Empty, meta |-> Empty, jobs |-> Empty, rs |-> {}, pend |-> 0, gen |-> 0,
   store |-> store, junk |-> {}, sf |-> sf, bpc |-> "run", cur |-> None, stat |-> Zero, progs |-> Empty,
   nx |-> 1, clk |-> 1, held |-> Empty, ans |-> {}, ops |-> Empty, pmap |-> Empty]

\* -- answering -------------------------------------------------------------
Notify(s, w) == IF w = 0 THEN s ELSE [s EXCEPT !.ans = @ \union {w}]
NotifyAll(s, W) == [s EXCEPT !.ans = @ \union (W \ {0})]

\* -- programs ---------------------------------------------------------------
Live(s) == {n \in DOMAIN s.progs : s.progs[n].kind = "jit"
                                   /\ (n \in Range(s.res) \/ n \in DOMAIN s.held)}
\* Programs that may be occupying memory: also unpublished results and handles in transit.
MaxLive(s) ==
  Cardinality(Live(s))
  + Cardinality({r \in s.rs : r.ok /\ r.kind = "jit"})
  + Cardinality({n \in DOMAIN s.jobs : s.jobs[n].st \in {"ok", "ghost"} /\ s.jobs[n].kind = "jit"})
  + (IF s.cur # None /\ s.cur.ok /\ s.cur.kind = "jit" THEN 1 ELSE 0)
  + Cardinality({s.ops[i].n : i \in DOMAIN s.ops} \ ({0} \union Live(s)))

\* Forget programs nobody can reach (keeps the state small).
Gc(s) ==
  LET keep == Range(s.res) \union DOMAIN s.held \union {s.ops[i].n : i \in DOMAIN s.ops}
  IN [s EXCEPT !.progs = [n \in DOMAIN s.progs \intersect keep |-> s.progs[n]],
               !.pmap = [p \in {q \in DOMAIN s.pmap : s.pmap[q] \in keep} |-> s.pmap[p]]]

Insert(c, s, k, kind, n, t) ==
  Gc([s EXCEPT !.progs = With(@, n, [k |-> k, kind |-> kind]),
               !.res = With(@, k, n),
               !.meta = With(@, k, [q |-> s.clk, t |-> t]),
               !.clk = @ + 1])
Remove(s, k) == Gc([s EXCEPT !.res = Without(@, {k}), !.meta = Without(@, {k})])

\* -- admission (try_admit) --------------------------------------------------
Queued(s) == {n \in DOMAIN s.jobs : s.jobs[n].st = "q"}
Waiting(s) == {n \in Queued(s) : s.jobs[n].gen # Orphan}

\* Store operations that fail: "load" reports an error, "gone" finds nothing; "bad" writes what cannot be loaded.
CanLoad(s) == "load" \notin s.sf /\ "gone" \notin s.sf

Admit(c, s, kind, k, w, observed, t) ==
  IF k \in DOMAIN s.res THEN Notify(s, w)
  ELSE IF k \notin c.elig THEN Notify(s, w)
  ELSE IF observed /\ k \notin DOMAIN s.ent /\ Cardinality(DOMAIN s.ent) >= c.pend * 10 THEN s
  ELSE IF kind = "aot" /\ c.store /\ CanLoad(s) /\ k \in s.store \ s.junk
  THEN Notify(Insert(c, [s EXCEPT !.nx = @ + 1], k, "aot", s.nx, t), w)
  ELSE
    LET e0 == IF k \in DOMAIN s.ent THEN s.ent[k] ELSE [hot |-> 0, ph |-> "cold", ws |-> {}, t |-> t]
        e1 == [e0 EXCEPT !.t = t]
        e2 == IF observed /\ e1.ph # "work" THEN [e1 EXCEPT !.hot = @ + 1] ELSE e1
        s1 == [s EXCEPT !.ent = With(@, k, e2)]
    IN IF e2.ph = "work" THEN [s EXCEPT !.ent = With(@, k, [e2 EXCEPT !.ws = @ \union {w}])]
       ELSE IF observed /\ e2.hot < Thr(c) THEN s1
       ELSE IF s.pend >= c.pend THEN Notify(s1, w)
       ELSE IF c.workers = 0 \/ Cardinality(Waiting(s)) >= c.workers * c.qcap THEN Notify(s1, w)
       ELSE Bump([s1 EXCEPT
              !.jobs = With(@, s.nx, [k |-> k, kind |-> kind, gen |-> s.gen, w |-> w, st |-> "q", b |-> 0]),
              !.nx = @ + 1,
              !.ent[k].ph = "work",
              !.pend = @ + 1], "disp")

RECURSIVE AdmitAll(_, _, _, _)
AdmitAll(c, s, ks, t) ==
  IF ks = <<>> THEN s ELSE AdmitAll(c, Admit(c, s, "aot", Head(ks), 0, FALSE, t), Tail(ks), t)

Kind(c) == IF c.aot THEN "aot" ELSE "jit"

\* -- the backend thread -------------------------------------------------------
RecvCmd(c, s, t) ==
  IF s.bpc # "run" \/ s.chan = <<>> THEN {}
  ELSE
    LET m == Head(s.chan)
        s1 == [s EXCEPT !.chan = Tail(@)]
    IN CASE m.c = "jit" -> {Admit(c, s1, Kind(c), m.k, m.w, FALSE, t)}
         [] m.c = "aot" -> {AdmitAll(c, s1, m.ks, t)}
         [] m.c \in {"res", "all"} ->
              {Gc([s1 EXCEPT !.res = Empty, !.meta = Empty, !.bpc = "clear", !.cur = [none |-> TRUE, c |-> m.c]])}
         [] m.c = "per" -> {IF "clear" \in s1.sf THEN s1 ELSE [s1 EXCEPT !.store = {}, !.junk = {}]}
         [] OTHER -> {s1}

\* A clear: resident code goes first, then the callers waiting are told, then the events observed
\* so far are dropped and a new generation begins.
Clearing(c, s) ==
  CASE s.bpc = "clear" ->
         {NotifyAll([s EXCEPT !.ent = Empty, !.bpc = "clear2"], UNION {s.ent[k].ws : k \in DOMAIN s.ent})}
    [] s.bpc = "clear2" ->
         {[s EXCEPT !.ev = <<>>, !.gen = @ + 1, !.bpc = "run", !.cur = None,
                    !.store = IF s.cur.c = "all" /\ "clear" \notin s.sf THEN {} ELSE @,
                    !.junk = IF s.cur.c = "all" /\ "clear" \notin s.sf THEN {} ELSE @]}
    [] OTHER -> {}

RecvResult(c, s) ==
  IF s.bpc # "run" THEN {}
  ELSE {LET s1 == [s EXCEPT !.rs = @ \ {r}, !.pend = IF @ > 0 THEN @ - 1 ELSE 0]
        IN IF r.gen # s.gen THEN Notify(Bump(s1, "disc"), r.w)
           ELSE [s1 EXCEPT !.bpc = "cb", !.cur = r] : r \in s.rs}

\* After the callback: publish or record the failure, then answer everyone waiting for the key.
Publish(c, s, t) ==
  IF s.bpc # "pub" THEN {}
  ELSE
    LET r == s.cur
        ws == {r.w} \union (IF r.k \in DOMAIN s.ent THEN s.ent[r.k].ws ELSE {})
        s1 == [s EXCEPT !.bpc = "run", !.cur = None, !.ent = Without(@, {r.k})]
        bad == Bump(s1, "fail")
        s2 == IF ~r.ok THEN bad
              ELSE IF r.kind = "jit" THEN Bump(Insert(c, s1, r.k, "jit", r.n, t), "succ")
              ELSE IF ~c.store \/ "store" \in s.sf THEN bad
              ELSE LET s3 == [s1 EXCEPT !.store = @ \union {r.k},
                                       !.junk = IF "bad" \in s.sf THEN @ \union {r.k} ELSE @ \ {r.k}]
                   IN IF "bad" \in s.sf \/ ~CanLoad(s) THEN Bump(s3, "fail")
                      ELSE Bump(Insert(c, s3, r.k, "aot", r.n, t), "succ")
    IN {NotifyAll(s2, ws)}

Drain(c, s, t) ==
  IF s.bpc # "run" \/ s.ev = <<>> THEN {}
  ELSE
    LET m == Head(s.ev)
        s1 == [s EXCEPT !.ev = Tail(@)]
    IN IF m.hit
       THEN {LET s2 == Bump(s1, "hits")
             IN IF m.k \in DOMAIN s2.meta
                THEN [s2 EXCEPT !.meta[m.k] = [q |-> s.clk, t |-> t], !.clk = @ + 1] ELSE s2}
       ELSE {Admit(c, Bump(s1, "misses"), Kind(c), m.k, 0, TRUE, t)}

Evicted(s, k) ==
  Bump(Remove([s EXCEPT !.ent = IF k \in DOMAIN @ /\ @[k].ph = "cold" THEN Without(@, {k}) ELSE @], k), "evict")

JitRes(s) == {k \in DOMAIN s.res : s.progs[s.res[k]].kind = "jit"}
Lru(s) == {k \in JitRes(s) : \A j \in JitRes(s) : s.meta[k].q <= s.meta[j].q}

\* Between observations at times t and t2: what has been unused for longer than c.idle may go.
Evict(c, s, t2) ==
  IF s.bpc # "run" THEN {}
  ELSE (IF c.budget >= 0 /\ MaxLive(s) > c.budget THEN {Evicted(s, k) : k \in Lru(s)} ELSE {})
       \union (IF c.idle > 0
               THEN {Evicted(s, k) : k \in {j \in DOMAIN s.meta : t2 > s.meta[j].t + c.idle}}
                    \union {[s EXCEPT !.ent = Without(@, {k})] :
                             k \in {j \in DOMAIN s.ent \ DOMAIN s.res : s.ent[j].ph = "cold" /\ t2 > s.ent[j].t + c.idle}}
               ELSE {})

Backend(c, s, t, t2) ==
  IF s.st # "run" THEN {}
  ELSE RecvCmd(c, s, t) \union Clearing(c, s) \union RecvResult(c, s) \union Publish(c, s, t)
       \union Drain(c, s, t) \union Evict(c, s, t2)

\* -- the workers ---------------------------------------------------------------
\* The pool of a runtime that was shut down runs what it still has queued.
Left(s) == {n \in DOMAIN s.jobs : s.jobs[n].gen = Orphan}
Busy(s) == {n \in DOMAIN s.jobs : s.jobs[n].st # "q"}
Start(c, s) ==
  IF Cardinality(Busy(s) \ Left(s)) >= c.workers THEN {}
  ELSE {[s EXCEPT !.jobs[n].st = "r"] : n \in Queued(s) \ Left(s)}
StartLeft(s) == {[s EXCEPT !.jobs[n].st = "r"] : n \in Queued(s) \intersect Left(s)}
Finish(s) ==
  {LET j == s.jobs[n]
       s1 == [s EXCEPT !.jobs = Without(@, {n})]
   IN IF j.gen = Orphan
      THEN IF j.st = "ok" /\ j.kind = "jit" THEN [s EXCEPT !.jobs[n].st = "ghost"] ELSE s1
      ELSE [s1 EXCEPT !.rs = @ \union {[n |-> n, k |-> j.k, kind |-> j.kind, gen |-> j.gen, w |-> j.w, ok |-> j.st = "ok"]}]
   : n \in {m \in DOMAIN s.jobs : s.jobs[m].st \in {"ok", "bad"}}}

\* A program compiled after a shutdown goes when the old runtime's thread gets to it (an artifact may
\* still have to be linked, so that may be after everything else has come to rest).
Ghosts(s) == {n \in DOMAIN s.jobs : s.jobs[n].st = "ghost"}
Exorcise(s) == IF Ghosts(s) = {} THEN {} ELSE {[s EXCEPT !.jobs = Without(@, Ghosts(s))]}

Built(s, b, k) == {[s EXCEPT !.jobs[n].st = "g", !.jobs[n].b = b]
                     : n \in {m \in DOMAIN s.jobs : s.jobs[m].st = "r" /\ (k = 0 \/ s.jobs[m].k = k)}}
Released(s, b, ok) == {[s EXCEPT !.jobs[n].st = IF ok THEN "ok" ELSE "bad"]
                         : n \in {m \in DOMAIN s.jobs : s.jobs[m].st = "g" /\ s.jobs[m].b = b}}

\* -- starting ------------------------------------------------------------------
CanStart(c, s) == ~(c.store /\ "load_all" \in s.sf)
RECURSIVE Preload(_, _, _, _)
Preload(c, s, K, t) ==
  IF K = {} THEN s
  ELSE LET k == CHOOSE k \in K : TRUE
       IN Preload(c, Insert(c, [s EXCEPT !.nx = @ + 1], k, "aot", s.nx, t), K \ {k}, t)
\* ensure_started; the caller checks CanStart.
Started(c, s, t) ==
  IF s.st # "idle" THEN s
  ELSE LET s1 == Preload(c, s, IF c.store THEN s.store \ s.junk ELSE {}, t) IN [s1 EXCEPT !.st = "run"]
Failing(c, s) == s.st = "idle" /\ ~CanStart(c, s)

\* -- API calls --------------------------------------------------------------------
Call(s, id, op, k, ks, w, on) ==
  [s EXCEPT !.ops = With(@, id, [op |-> op, k |-> k, ks |-> ks, w |-> w, on |-> on,
                                 pc |-> "c", d |-> "", n |-> 0])]
Done(s, id, d, n) == [s EXCEPT !.ops[id].pc = "d", !.ops[id].d = d, !.ops[id].n = n]
Goto(s, id, pc) == [s EXCEPT !.ops[id].pc = pc]
Send(c, s, id, m, pc) == IF Len(s.chan) >= c.chan THEN {} ELSE {Goto([s EXCEPT !.chan = Append(@, m)], id, pc)}

\* The backend is writing to the resident map, so a lookup may find its shard locked.
Writing(s) == s.st = "run" /\ (s.chan # <<>> \/ s.ev # <<>> \/ s.rs # {} \/ s.bpc # "run")

Lookup(c, s, id) ==
  LET o == s.ops[id] IN
  CASE o.pc = "c" ->
         IF ~s.en THEN {Done(s, id, "disabled", 0)}
         ELSE IF c.blocking THEN {Goto(s, id, "g1")}
         ELSE IF o.k \notin c.elig THEN {Done(s, id, "ineligible", 0)}
         ELSE LET miss == [s EXCEPT !.ops[id].pc = "push", !.ops[id].d = "notready"]
              IN IF o.k \in DOMAIN s.res
                 THEN {[s EXCEPT !.ops[id].pc = "push", !.ops[id].d = "compiled", !.ops[id].n = s.res[o.k]]}
                      \union (IF Writing(s) THEN {miss} ELSE {})
                 ELSE {miss}
    [] o.pc = "push" ->
         {Goto(IF Len(s.ev) >= c.chan THEN Bump(s, "dropped")
               ELSE [s EXCEPT !.ev = Append(@, [k |-> o.k, hit |-> o.d = "compiled"])], id, "d")}
    [] OTHER -> {}

\* lookup_blocking: counts its own hits and misses.
Blocking(c, s, id, t) ==
  LET o == s.ops[id]
      hit == Done(Bump(s, "hits"), id, "compiled", IF o.k \in DOMAIN s.res THEN s.res[o.k] ELSE 0)
  IN
  CASE o.pc = "g1" \/ (o.op = "block" /\ o.pc = "c") ->
         IF o.k \notin c.elig THEN {Done(s, id, "ineligible", 0)}
         ELSE IF o.k \in DOMAIN s.res THEN {hit}
         ELSE {Goto(Bump(s, "misses"), id, "s")}
    [] o.pc = "s" ->
         IF Failing(c, s) THEN {Done(s, id, "failed", 0)}
         ELSE Send(c, Started(c, s, t), id, [c |-> "jit", k |-> o.k, w |-> id], "w")
    [] o.pc = "w" /\ id \in s.ans ->
         {LET s1 == [s EXCEPT !.ans = @ \ {id}]
          IN IF o.k \in DOMAIN s.res THEN [hit EXCEPT !.ans = @ \ {id}] ELSE Done(Bump(s1, "misses"), id, "failed", 0)}
    [] OTHER -> {}

Op(c, s, id, t) ==
  LET o == s.ops[id] IN
  IF o.pc = "d" THEN {}
  ELSE
  CASE o.op = "lookup" /\ o.pc \in {"c", "push"} -> Lookup(c, s, id)
    [] o.op = "lookup" \/ o.op = "block" -> Blocking(c, s, id, t)
    [] o.op = "get" -> {IF o.k \in DOMAIN s.res THEN Done(s, id, "compiled", s.res[o.k]) ELSE Done(s, id, "none", 0)}
    [] o.op = "sync" ->
         IF o.pc = "c"
         THEN IF Failing(c, s) THEN {Done(s, id, "err", 0)}
              ELSE Send(c, Started(c, s, t), id, [c |-> "jit", k |-> o.k, w |-> id], "w")
         ELSE IF id \in s.ans THEN {Done([s EXCEPT !.ans = @ \ {id}], id, "ok", 0)} ELSE {}
    [] o.op \in {"jit", "aot", "clear"} ->
         LET m == CASE o.op = "jit" -> [c |-> "jit", k |-> o.k, w |-> 0]
                    [] o.op = "aot" -> [c |-> "aot", ks |-> o.ks]
                    [] OTHER -> [c |-> o.w]
             s1 == IF Failing(c, s) THEN s ELSE Started(c, s, t)
         IN {[x EXCEPT !.ops[id].d = "ok"] : x \in Send(c, s1, id, m, "d")}
    [] o.op = "enable" ->
         LET s1 == [s EXCEPT !.en = o.on]
         IN {IF ~o.on THEN Done(s1, id, "ok", 0)
             ELSE IF Failing(c, s1) THEN Done(s1, id, "err", 0) ELSE Done(Started(c, s1, t), id, "ok", 0)}
    [] o.op \in {"pause", "resume"} ->
         LET d == IF o.op = "pause" THEN s.depth + 1 ELSE IF s.depth > 0 THEN s.depth - 1 ELSE 0
             tell == s.st = "run" /\ (IF o.op = "pause" THEN s.depth = 0 ELSE s.depth = 1)
             s1 == [s EXCEPT !.depth = d]
             s2 == IF ~tell THEN s1
                   ELSE IF Len(s.chan) >= c.chan THEN Bump(s1, "cdropped")
                   ELSE [s1 EXCEPT !.chan = Append(@, [c |-> o.op])]
         IN {Done(s2, id, "ok", 0)}
    [] o.op = "ispaused" -> {Done(s, id, IF s.depth > 0 THEN "yes" ELSE "no", 0)}
    [] o.op = "up" ->
         LET s1 == [Down(s.store, s.sf) EXCEPT !.st = "idle", !.junk = s.junk, !.nx = s.nx, !.held = s.held, !.progs = s.progs,
                                               !.pmap = s.pmap, !.jobs = s.jobs, !.ops = s.ops]
         IN {IF ~Enabled0(c) THEN Done(s1, id, "ok", 0)
             ELSE IF Failing(c, s1) THEN Done(s, id, "err", 0)
             ELSE Done([Started(c, s1, t) EXCEPT !.en = TRUE], id, "ok", 0)}
    [] o.op = "down" ->
         \* No call is in progress (each holds the runtime alive).  What is being compiled is abandoned.
         LET s1 == Gc([Down(s.store, s.sf) EXCEPT !.junk = s.junk, !.nx = s.nx, !.held = s.held, !.progs = s.progs,
                            !.pmap = s.pmap, !.ops = s.ops,
                            !.jobs = [n \in DOMAIN s.jobs |-> [s.jobs[n] EXCEPT !.gen = Orphan, !.w = 0]]
                                     @@ [n \in {r.n : r \in {x \in s.rs : x.ok /\ x.kind = "jit"}}
                                                 \union {m \in Range(s.res) : s.progs[m].kind = "jit"} |->
                                          [k |-> 0, kind |-> "jit", gen |-> Orphan, w |-> 0, st |-> "ghost", b |-> 0]]])
         IN IF s.bpc \notin {"run"} THEN {} ELSE {Done(s1, id, "ok", 0)}
    [] OTHER -> {}

Ops(c, s, t) == UNION {Op(c, s, id, t) : id \in DOMAIN s.ops}

\* Every internal step possible between observations made at times t and t2.  The end of a
\* compilation only enables other steps, so it may be taken first without losing a behaviour.
Silent(c, s, t, t2) ==
  LET f == Finish(s)
  IN IF f # {} THEN {CHOOSE x \in f : TRUE}
     ELSE Backend(c, s, t, t2) \union Start(c, s) \union StartLeft(s) \union Exorcise(s) \union Ops(c, s, t)

\* -- rest ----------------------------------------------------------------------------
\* Nothing moves until the next call or until a compilation ends.
Quiescent(c, s) ==
  /\ s.bpc = "run"
  /\ s.st = "run" => s.chan = <<>> /\ s.ev = <<>> /\ s.rs = {}
  /\ Start(c, s) = {}
  /\ \A n \in DOMAIN s.jobs : s.jobs[n].st \in {"g", "q"} \/ s.jobs[n].gen = Orphan
  /\ \A id \in DOMAIN s.ops : s.ops[id].pc # "d" /\ Op(c, s, id, 0) = {}
  /\ c.budget >= 0 /\ Cardinality(Live(s) \union Ghosts(s)) > c.budget => JitRes(s) = {}

\* -- design-level properties -----------------------------------------------------------
\* R01: whatever is resident under a key was made for that key.
RightProgram(s) == \A k \in DOMAIN s.res : s.progs[s.res[k]].k = k
\* R02: at most one compilation of a key in the current generation; a key being compiled has one.
OneJob(s) ==
  \A k \in DOMAIN s.ent : s.ent[k].ph = "work" =>
     Cardinality({n \in DOMAIN s.jobs : s.jobs[n].k = k /\ s.jobs[n].gen = s.gen}
                 \union {r.n : r \in {x \in s.rs : x.k = k /\ x.gen = s.gen}}
                 \union (IF s.cur # None /\ "n" \in DOMAIN s.cur /\ s.cur.k = k THEN {s.cur.n} ELSE {})) = 1
SingleFlight(s) ==
  \A n, m \in DOMAIN s.jobs :
     (n # m /\ s.jobs[n].k = s.jobs[m].k /\ s.jobs[n].gen # Orphan /\ s.jobs[m].gen # Orphan)
       => s.jobs[n].gen # s.jobs[m].gen
Caps(c, s) == s.pend <= c.pend \/ c.pend = 0
\* R04: whoever waits is known to somebody who will answer.
Attended(s) ==
  \A id \in DOMAIN s.ops : s.ops[id].pc = "w" =>
     \/ id \in s.ans
     \/ \E i \in 1..Len(s.chan) : s.chan[i].c = "jit" /\ s.chan[i].w = id
     \/ \E n \in DOMAIN s.jobs : s.jobs[n].w = id
     \/ \E r \in s.rs : r.w = id
     \/ s.cur # None /\ "w" \in DOMAIN s.cur /\ s.cur.w = id
     \/ \E k \in DOMAIN s.ent : id \in s.ent[k].ws
\* R06: dispatched = succeeded + failed + discarded + in flight.
Accounted(s) ==
  s.st = "run" =>
  s.stat.disp = s.stat.succ + s.stat.fail + s.stat.disc
                + Cardinality({n \in DOMAIN s.jobs : s.jobs[n].gen # Orphan})
                + Cardinality(s.rs) + (IF s.cur # None /\ "n" \in DOMAIN s.cur THEN 1 ELSE 0)
\* R05: everything held exists.
HeldExist(s) == DOMAIN s.held \subseteq DOMAIN s.progs /\ Range(s.res) \subseteq DOMAIN s.progs
=============================================================================
