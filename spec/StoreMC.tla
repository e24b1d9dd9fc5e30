------------------------------- MODULE StoreMC -------------------------------
(* How the store does it: bytes go to a scratch file which then takes the artifact's name, and the
   index is updated last.  Every step can fail.  Checked: what a user sees is what Store.tla allows,
   and files opened by anyone are never written to again.

   A file is an inode: [v, whole].  dir maps names to inodes; names are keys, and 0 for scratch. *)
EXTENDS Store, TLC, Json
CONSTANTS Vals, MaxOps, InPlace

VARIABLES inodes, dir, index, pc, cur, held, art, n, h
vars == <<inodes, dir, index, pc, cur, held, art, n, h>>

None == [k |-> 0, v |-> 0]
Init == /\ inodes = <<>> /\ dir = [k \in Keys \cup {0} |-> 0] /\ index = [k \in Keys |-> 0]
        /\ pc = "idle" /\ cur = None /\ held = {} /\ art = Empty /\ n = 0 /\ h = <<>>

\* What load gives: the index entry and the file it points to must belong together.
Loaded(k) == IF index[k] = 0 THEN 0
             ELSE IF dir[k] # 0 /\ inodes[dir[k]] = [v |-> index[k], whole |-> TRUE] THEN index[k] ELSE -1
View_ == [k \in Keys |-> Loaded(k)]

Begin(k, v) == /\ pc = "idle" /\ n < MaxOps /\ pc' = "create" /\ cur' = [k |-> k, v |-> v] /\ n' = n + 1
               /\ UNCHANGED <<inodes, dir, index, held, art, h>>
Create == /\ pc = "create" /\ pc' = "write"
          /\ IF InPlace /\ dir[cur.k] # 0
             THEN inodes' = [inodes EXCEPT ![dir[cur.k]] = [v |-> cur.v, whole |-> FALSE]] /\ dir' = [dir EXCEPT ![0] = dir[cur.k]]
             ELSE inodes' = Append(inodes, [v |-> cur.v, whole |-> FALSE]) /\ dir' = [dir EXCEPT ![0] = Len(inodes) + 1]
          /\ UNCHANGED <<index, cur, held, art, n, h>>
Write == /\ pc = "write" /\ pc' = "persist" /\ inodes' = [inodes EXCEPT ![dir[0]].whole = TRUE]
         /\ UNCHANGED <<dir, index, cur, held, art, n, h>>
Persist == /\ pc = "persist" /\ pc' = "insert" /\ dir' = [dir EXCEPT ![cur.k] = dir[0], ![0] = 0]
           /\ UNCHANGED <<inodes, index, cur, held, art, n, h>>
End(e) == /\ pc' = "idle" /\ cur' = None
          /\ h' = Append(h, e)
          /\ art' = IF View_' \in Outcomes(art, e) THEN View_' ELSE [k \in Keys |-> -1]
Insert == /\ pc = "insert" /\ index' = [index EXCEPT ![cur.k] = cur.v] /\ UNCHANGED <<inodes, dir, held, n>>
          /\ End([op |-> "store", k |-> cur.k, v |-> cur.v, ok |-> TRUE])
\* Any step before the index can fail: the scratch file is removed.
Fail == /\ pc \in {"create", "write", "persist"} /\ dir' = [dir EXCEPT ![0] = 0] /\ UNCHANGED <<inodes, index, held, n>>
        /\ End([op |-> "store", k |-> cur.k, v |-> cur.v, ok |-> FALSE])
\* The index first, then the file; that a file cannot be removed is not reported.
Delete(k, fails) == /\ pc = "idle" /\ n < MaxOps /\ n' = n + 1 /\ index' = [index EXCEPT ![k] = 0]
                    /\ dir' = IF index[k] = 0 \/ fails THEN dir ELSE [dir EXCEPT ![k] = 0]
                    /\ UNCHANGED <<inodes, held>> /\ End([op |-> "delete", k |-> k, v |-> 0, ok |-> TRUE])
Clear(fails) == /\ pc = "idle" /\ n < MaxOps /\ n' = n + 1 /\ index' = [k \in Keys |-> 0]
                /\ dir' = [k \in Keys \cup {0} |-> IF k # 0 /\ index[k] # 0 /\ ~fails THEN 0 ELSE dir[k]]
                /\ UNCHANGED <<inodes, held>> /\ End([op |-> "clear", k |-> 0, v |-> 0, ok |-> TRUE])
Hold(k) == /\ pc = "idle" /\ n < MaxOps /\ n' = n + 1 /\ Loaded(k) > 0 /\ held' = held \cup {<<dir[k], Loaded(k)>>}
           /\ UNCHANGED <<inodes, dir, index>> /\ End([op |-> "open", k |-> k, v |-> 0, ok |-> TRUE])

Next == \/ \E k \in Keys, v \in Vals : Begin(k, v)
        \/ Create \/ Write \/ Persist \/ Insert \/ Fail
        \/ \E k \in Keys, f \in BOOLEAN : Delete(k, f)
        \/ \E f \in BOOLEAN : Clear(f)
        \/ \E k \in Keys : Hold(k)


NoMixture == \A k \in Keys : art[k] # -1
HeldIntact == \A x \in held : inodes[x[1]] = [v |-> x[2], whole |-> TRUE]
\* Between operations, what is seen is what Store.tla says is held.
Agrees == pc = "idle" => View_ = art
V == <<inodes, dir, index, pc, cur, held, art, n>>

\* Sequences of operations to be replayed, with a failing call for some.
VARIABLE g
GenInit == Init /\ g = <<>>
GenNext == /\ Len(g) < MaxOps /\ UNCHANGED vars
           /\ LET w == RandomElement(1..12)
                  f == [fault |-> RandomElement({0, 0, 1, 2, 3, 4, 5}), e |-> RandomElement(0..6), short |-> RandomElement(BOOLEAN)]
                  k == RandomElement(Keys)
              IN g' = Append(g, f @@ (CASE w <= 6 -> [op |-> "store", k |-> k, v |-> RandomElement(Vals)]
                                      [] w <= 8 -> [op |-> "open", k |-> k, v |-> 0]
                                      [] w <= 11 -> [op |-> "delete", k |-> k, v |-> 0]
                                      [] OTHER -> [op |-> "clear", k |-> 0, v |-> 0]))
MCSpec == (Init /\ g = <<>>) /\ [][Next /\ UNCHANGED g]_<<vars, g>>
GenSpec == GenInit /\ [][GenNext]_<<vars, g>>
Emit == Len(g) < MaxOps \/ PrintT(<<"SESSION", ToJson(g)>>)
=============================================================================
