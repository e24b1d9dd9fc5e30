------------------------------ MODULE EVMTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions against EVM.tla.                             *)
(*                                                                         *)
(* Each line of the input file is a case and what an execution of it by    *)
(* the code under test showed: one observation per suspension and one at   *)
(* the end.  The specification executes the case instruction by            *)
(* instruction; at every suspension and at the end its state is compared   *)
(* with the observation.  Every state in between must satisfy the          *)
(* invariants.                                                             *)
(***************************************************************************)
EXTENDS EVM, Json, IOUtils

Batch == ndJsonDeserialize(IOEnv.EVM_BATCH)
MaxSegs == 24

VARIABLES i,      \* which case
          m,      \* the machine
          seg     \* which observation comes next
vars == <<i, m, seg>>

Case(n) == Batch[n].case
Obs(n)  == Batch[n].obs

SetOf(s) == {s[k] : k \in DOMAIN s}
NonZero(f) == {<<k, f[k]>> : k \in {x \in DOMAIN f : f[x] # Zero}}
Balances(w) == {<<a, w.accts[a].bal>> : a \in {x \in DOMAIN w.accts : w.accts[x].bal # Zero}}

SameWorld(w, o) ==
  /\ NonZero(w.cur) = SetOf(o.sto)
  /\ NonZero(w.tsto) = SetOf(o.tsto)
  /\ Balances(w) = SetOf(o.bal)
  /\ w.warm = SetOf(o.warm_a)
  /\ w.warms = SetOf(o.warm_s)
  /\ w.logs = o.logs
  /\ w.dead = SetOf(o.dead)

(* In which respects the machine and the observation disagree. *)
Differences(x, o) ==
  IF o.k = "crash" THEN {"crash"}
  ELSE IF x.status # o.k THEN {"kind"}
  ELSE IF o.k = "halt" THEN {}
  ELSE (IF x.gas # o.gas \/ x.rsv # o.rsv \/ x.ssp # o.ssp THEN {"gas"} ELSE {})
       \cup (IF x.refund # o.refund THEN {"refund"} ELSE {})
       \cup (IF o.has_stack /\ x.st # o.stack THEN {"stack"} ELSE {})
       \cup (IF x.mem # o.mem THEN {"mem"} ELSE {})
       \cup (IF x.out # o.out THEN {"out"} ELSE {})
       \cup (IF x.req # o.req THEN {"req"} ELSE {})
       \cup (IF o.k # "revert" /\ ~SameWorld(x.w, o.world) THEN {"world"} ELSE {})

Diff == IF seg > Len(Obs(i)) THEN {"kind"} ELSE Differences(m, Obs(i)[seg])

End == m' = [status |-> "done"] /\ UNCHANGED <<i, seg>>

Init == /\ i \in 1..Len(Batch)
        /\ m = Machine0(Case(i))
        /\ seg = 1

Execute == /\ m.status = "run"
           /\ m' = Step(Case(i), m)
           /\ UNCHANGED <<i, seg>>

(* A suspension that agrees with its observation goes on with the scripted outcome. *)
Suspend == /\ m.status \in {"call", "create"}
           /\ IF Diff # {} THEN PrintT(<<"MISMATCH", i, seg, Diff>>) /\ End
              ELSE IF seg > Len(Case(i).script) \/ seg > MaxSegs THEN PrintT(<<"AGREES", i>>) /\ End
              ELSE m' = Resume(Case(i), m, Case(i).script[seg]) /\ seg' = seg + 1 /\ UNCHANGED i

Finished == /\ m.status \in {"stop", "return", "revert", "selfdestruct", "halt"}
            /\ IF Diff # {} THEN PrintT(<<"MISMATCH", i, seg, Diff>>)
               ELSE IF seg # Len(Obs(i)) THEN PrintT(<<"MISMATCH", i, seg, {"kind"}>>)
               ELSE PrintT(<<"AGREES", i>>)
            /\ End

Next == Execute \/ Suspend \/ Finished
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------------- *)
(* What every state of every frame satisfies                              *)

Live == m.status # "done"
StackBounded == Live => Len(m.st) \in 0..STACK_LIMIT
GasBounded   == Live => m.gas >= 0 /\ m.rsv >= 0
MemoryWords  == Live => MSize(m) % 32 = 0
StaticPure   == (Live /\ Case(i).static) =>
                  /\ m.w.logs = <<>> /\ m.w.dead = World0(Case(i)).dead
                  /\ m.w.accts = World0(Case(i)).accts
                  /\ m.w.tsto = World0(Case(i)).tsto
OutputOnly   == Live => (m.out # "" => m.status \in {"return", "revert"})
MemoryGrows  == [][(Live /\ m'.status # "done") => BLen(m'.mem) >= BLen(m.mem)]_vars
WarmGrows    == [][(Live /\ m'.status # "done") => (m.w.warm \subseteq m'.w.warm /\ m.w.warms \subseteq m'.w.warms)]_vars
=============================================================================
