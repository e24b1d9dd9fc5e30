----------------------------- MODULE HelperTrace -----------------------------
(* Judges recorded sessions: the states of Helper.tla that explain what has been seen so far. *)
EXTENDS Helper, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.TRACES)
VARIABLE i

Got(e) == [open |-> [k \in Keys |-> e.seen.open[k]], gates |-> [k \in Keys |-> e.seen.gates[k]], res |-> [k \in Keys |-> e.seen.res[k]],
           live |-> e.seen.live, stopped |-> e.seen.stopped, paused |-> e.seen.paused,
           succ |-> e.seen.succ, fail |-> e.seen.fail, disc |-> e.seen.disc]
\* Besides the state: calls that do not wait return at once, programs are what they should be,
\* limits are applied to the helper.
Plain(e) == IF e.slow THEN "slow" ELSE IF e.wrong THEN "program" ELSE IF e.limits THEN "limits" ELSE ""
Field(c, S, e) ==
  LET g == Got(e)
      bad == {f \in {"open", "gates", "res", "live", "stopped", "paused", "succ", "fail", "disc"} : \A t \in S : Seen(c, t)[f] # g[f]}
  IN IF bad = {} THEN "mix" ELSE CHOOSE f \in bad : TRUE
RECURSIVE Judge(_, _, _, _)
Judge(c, ev, n, S) ==
  IF n > Len(ev) THEN <<0, "">>
  ELSE LET e == ev[n]
           T == UNION {IF Enabled(c, s, e) THEN After(c, s, e) ELSE {s} : s \in S}
           U == TLCEval({t \in T : Seen(c, t) = Got(e)})
       IN IF Plain(e) # "" THEN <<n, Plain(e)>>
          ELSE IF U = {} THEN <<n, Field(c, T, e)>>
          ELSE Judge(c, ev, n + 1, U)
\* At the end everything is resumed and allowed to finish: every request returns and no process is left.
Finish(r) == IF r.died # "" THEN "died" ELSE IF r.hung > 0 THEN "hung" ELSE IF r.left > 0 THEN "left" ELSE ""
Init == i \in 1..Len(Recs)
Next == UNCHANGED i
Report == LET r == Recs[i]
              v == Judge(r.cfg, r.events, 1, {Init0})
              f == Finish(r)
          IN /\ v[2] # "" => PrintT(<<"BAD", i, v[1], v[2]>>)
             /\ v[2] = "" /\ f # "" => PrintT(<<"BAD", i, Len(r.events) + 1, f>>)
=============================================================================
