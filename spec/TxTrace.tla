-------------------------------- MODULE TxTrace --------------------------------
(* Judges transactions run by one of the repository's executors against the same transactions run by
   plain revm, from equal states. *)
EXTENDS Tx, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

Set(s) == {s[k] : k \in 1..Len(s)}
Wrong(r, t) ==
  LET p == t.plain j == t.jit IN
  IF p.class # j.class \/ p.out # j.out THEN "result"
  ELSE IF p.state # j.state \/ p.db # j.db THEN "state"
  ELSE IF r.probed /\ Observable(j.ev) # Observable(p.ev) THEN "frames"
  ELSE LET w == IF r.probed THEN Walk(j.ev, 1, <<>>, Set(t.have), r.known, r.strict) ELSE ""
           v == Walk(p.ev, 1, <<>>, {}, FALSE, FALSE)
  IN IF w # "" /\ ~(w = "open" /\ p.class = "error") THEN w
     ELSE IF v # "" /\ ~(v = "open" /\ p.class = "error") THEN "model"
     ELSE IF Settled(j.told) # Settled(p.told) THEN "told"
     ELSE IF t.counted /\ Lasting(p.told) # t.logs THEN "model"
     ELSE IF t.counted /\ Lasting(j.told) # t.logs THEN "logs"
     ELSE ""
\* From the first transaction that goes wrong the states differ.
RECURSIVE First(_, _)
First(r, k) == IF k > Len(r.txs) THEN <<0, "">> ELSE LET w == Wrong(r, r.txs[k]) IN IF w # "" THEN <<k, w>> ELSE First(r, k + 1)
Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Report == LET v == IF Recs[i].died THEN <<1, "died">> ELSE First(Recs[i], 1) IN v[2] # "" => PrintT(<<"BAD", i, v[1], v[2]>>)
=============================================================================
