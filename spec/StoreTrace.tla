------------------------------ MODULE StoreTrace ------------------------------
(* Judges recorded histories of the real store. *)
EXTENDS Store, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

Wrong(art, e) ==
  LET after == [k \in Keys |-> e.snap[k]] IN
  IF ~e.ok /\ ~e.hit THEN "refused"                       \* an error nothing caused
  ELSE IF e.k # 0 /\ \E k \in Keys \ {e.k} : after[k] # art[k] THEN "others"
  ELSE IF after \notin Outcomes(art, e) THEN IF \E k \in Keys : after[k] < 0 THEN "mixture" ELSE "outcome"
  ELSE IF e.strange \/ [k \in Keys |-> e.listed[k]] # after THEN "listed"
  ELSE IF e.len # Count(after) \/ e.empty # (Count(after) = 0) THEN "count"
  ELSE IF \E n \in 1..Len(e.held) : ~e.held[n] THEN "held"
  ELSE IF e.op \in {"delete", "clear"} /\ ~e.hit /\ e.left > 0 THEN "left"
  ELSE ""
RECURSIVE Judge(_, _, _)
Judge(ev, n, art) ==
  IF n > Len(ev) THEN <<0, "">>
  ELSE LET w == Wrong(art, ev[n]) IN
       IF w # "" THEN <<n, w>> ELSE Judge(ev, n + 1, [k \in Keys |-> ev[n].snap[k]])
Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Report == LET v == IF Recs[i].died THEN <<Len(Recs[i].events) + 1, "died">> ELSE Judge(Recs[i].events, 1, Empty) IN v[2] # "" => PrintT(<<"BAD", i, v[1], v[2]>>)
=============================================================================
