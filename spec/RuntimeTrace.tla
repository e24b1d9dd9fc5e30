---------------------------- MODULE RuntimeTrace ----------------------------
(***************************************************************************)
(* Is a recorded history one of Runtime.tla's?  The traces of a file are   *)
(* checked side by side; one is accepted when some behaviour consumes it.  *)
(***************************************************************************)
EXTENDS Runtime, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
\* Fields not to be compared at one event (only used to describe a rejection).
IgnIdx == IF "IGN_IDX" \in DOMAIN IOEnv THEN atoi(IOEnv.IGN_IDX) ELSE 0
IgnWhat == IF "IGN" \in DOMAIN IOEnv THEN IOEnv.IGN ELSE ""

VARIABLES t, i, s

Set(q) == {q[j] : j \in 1..Len(q)}

Tr == Traces[t].trace
C == [Traces[t].cfg EXCEPT !.elig = Set(@)]
K == Traces[t].keys

\* Respects ignored throughout, to see what else is wrong with a rejected history.
IgnAll == {f \in {"open", "gates", "store", "live", "res", "alive", "enabled", "paused", "hits", "misses", "dropped", "cdropped", "evict", "disp", "succ", "fail",
                  "resident", "pending", "cmdq", "evq", "units", "stats", "kind", "build", "cb", "evicted", "stuck"} : ("IGNA_" \o f) \in DOMAIN IOEnv}
Ign(f) == (i = IgnIdx /\ f = IgnWhat) \/ f \in IgnAll
Time(j) == IF C.idle = 0 THEN 0 ELSE IF j < 1 THEN 0 ELSE IF j > Len(Tr) THEN Tr[Len(Tr)].t ELSE Tr[j].t

\* The handle p was returned for the program numbered n, published under key k.
Identity(p, n) ==
  LET k == s.progs[n].k IN
  /\ Ign("code") \/ (p.code = K[k].code /\ p.fork = K[k].fork /\ p.key = k)
  /\ Ign("plive") \/ p.live
  /\ Ign("kind") \/ p.kind = s.progs[n].kind
Same(p, n) ==
  /\ n \in DOMAIN s.progs
  /\ Identity(p, n)
  /\ IF p.pid \in DOMAIN s.pmap THEN s.pmap[p.pid] = n ELSE n \notin Range(s.pmap)

Bind(x, p, n) == IF n = 0 THEN x ELSE [x EXCEPT !.pmap = With(@, p.pid, n)]
AddHeld(x, n) == [x EXCEPT !.held = With(@, n, IF n \in DOMAIN @ THEN @[n] + 1 ELSE 1)]

RetOk(e, o) ==
  /\ o.pc = "d"
  /\ o.op = e.op
  /\ Ign("d") \/ o.d = e.d
  /\ (o.d = "compiled" /\ e.d = "compiled") => Same(e.p, o.n)

AfterRet(e, o) ==
  LET hit == o.d = "compiled" /\ e.d = "compiled"
      s1 == [s EXCEPT !.ops = Without(@, {e.id})]
      s2 == IF hit THEN Bind(s1, e.p, o.n) ELSE s1
      s3 == IF hit /\ e.hold THEN AddHeld(s2, o.n) ELSE s2
  IN Gc(s3)

StatOk(st, e) ==
  /\ Ign("hits") \/ e.hits = st.hits
  /\ Ign("misses") \/ e.misses = st.misses
  /\ Ign("dropped") \/ e.dropped = st.dropped
  /\ Ign("cdropped") \/ e.cdropped = st.cdropped
  /\ Ign("evict") \/ e.evict = st.evict
  /\ Ign("disp") \/ e.disp = st.disp
  /\ Ign("succ") \/ e.succ = st.succ
  /\ Ign("fail") \/ e.fail = st.fail
  /\ Ign("resident") \/ e.resident = Cardinality(DOMAIN s.res)
  /\ Ign("pending") \/ e.pending = st.disp - st.succ - st.fail - st.disc
  /\ Ign("cmdq") \/ e.cmdq = Len(s.chan)
  /\ Ign("evq") \/ e.evq = Len(s.ev)
  /\ Ign("units") \/ e.units = e.live

QuietOk(e) ==
  /\ Quiescent(C, s)
  /\ Ign("open") \/ Set(e.open) = DOMAIN s.ops
  /\ Ign("gates") \/ Set(e.gates) = {s.jobs[n].b : n \in {m \in DOMAIN s.jobs : s.jobs[m].st = "g"}}
  /\ Ign("store") \/ Set(e.store) = s.store
  /\ Ign("live") \/ e.live = Cardinality(Live(s) \union Ghosts(s))
  /\ Ign("res") \/
       \A k \in 1..Len(K) :
         IF k \in DOMAIN s.res THEN e.res[k].pid # 0 /\ Same(e.res[k], s.res[k]) ELSE e.res[k].pid = 0
  /\ s.st # "down" =>
       /\ Ign("alive") \/ e.alive
       /\ Ign("enabled") \/ e.enabled = s.en
       /\ Ign("paused") \/ e.paused = (s.depth > 0)
       /\ Ign("stats") \/ StatOk(s.stat, e.stats @@ [live |-> e.live])

RECURSIVE BindAll(_, _, _)
BindAll(x, e, k) ==
  IF k > Len(K) THEN x
  ELSE BindAll(IF k \in DOMAIN x.res /\ e.res[k].pid # 0 /\ e.res[k].pid \notin DOMAIN x.pmap
               THEN Bind(x, e.res[k], x.res[k]) ELSE x, e, k + 1)

Event ==
  LET e == Tr[i] IN
  /\ i <= Len(Tr)
  /\ i' = i + 1
  /\ UNCHANGED t
  /\ CASE e.e = "call" ->
            /\ e.op = "down" => DOMAIN s.ops = {}
            /\ s' = Call(s, e.id, e.op, e.k, e.ks, e.w, e.on)
       [] e.e = "ret" ->
            /\ e.id \in DOMAIN s.ops
            /\ RetOk(e, s.ops[e.id])
            /\ s' = AfterRet(e, s.ops[e.id])
       [] e.e = "build" -> IF Ign("build") THEN s' = s ELSE s' \in Built(s, e.b, e.k)
       [] e.e = "rel" -> s' \in Released(s, e.b, e.v = "ok")
       [] e.e = "cb" ->
            /\ s.bpc = "cb"
            /\ Ign("cb") \/ (e.k = s.cur.k /\ e.kind = s.cur.kind /\ e.ok = s.cur.ok)
            /\ s' = [s EXCEPT !.bpc = IF e.hold THEN "cbh" ELSE "pub"]
       [] e.e = "cbhold" -> s' = s
       [] e.e = "cbgo" -> s' = IF s.bpc = "cbh" THEN [s EXCEPT !.bpc = "pub"] ELSE s
       [] e.e = "run" ->
            /\ e.p.pid \in DOMAIN s.pmap
            /\ Identity(e.p, s.pmap[e.p.pid])
            /\ s' = s
       [] e.e = "drop" ->
            /\ e.pid \in DOMAIN s.pmap
            /\ LET n == s.pmap[e.pid] IN
               s' = Gc([s EXCEPT !.held = IF @[n] = 1 THEN Without(@, {n}) ELSE [@ EXCEPT ![n] = @ - 1]])
       [] e.e = "sfault" -> s' = [s EXCEPT !.sf = IF e.on THEN @ \union {e.w} ELSE @ \ {e.w}]
       [] e.e = "evicted" -> (Ign("evicted") \/ DOMAIN s.res = {}) /\ s' = s
       [] e.e = "quiet" -> QuietOk(e) /\ s' = BindAll(s, e, 1)
       [] e.e = "end" ->
            /\ Ign("stuck") \/ (~e.stuck /\ e.open = <<>>)
            /\ Ign("live") \/ e.stuck \/ e.live = 0
            /\ s' = s

Internal ==
  /\ i <= Len(Tr)
  /\ s' \in Silent(C, s, Time(i - 1), Time(i))
  /\ UNCHANGED <<t, i>>

Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Down({}, {})
\* One explanation is enough (with one worker; with several, some work is repeated).
Open(x) == TLCGetOrDefault(100000 + x, 0) = 0
Next == Open(t) /\ (Event \/ Internal)
Spec == Init /\ [][Next]_<<t, i, s>>

\* The design-level properties along every explained history.
Inv ==
  /\ RightProgram(s)
  /\ SingleFlight(s)
  /\ OneJob(s)
  /\ Attended(s)
  /\ Accounted(s)
  /\ HeldExist(s)

\* Reports acceptance and, when asked (with one worker), how far each trace got.
Diag == "DIAG" \in DOMAIN IOEnv
Report ==
  /\ i > Len(Tr) => (Open(t) => PrintT(<<"ACCEPTED", t>>)) /\ TLCSet(100000 + t, 1)
  /\ Diag /\ i > TLCGetOrDefault(t, 0) => TLCSet(t, i) /\ PrintT(<<"REACHED", t, i>>)
=============================================================================
