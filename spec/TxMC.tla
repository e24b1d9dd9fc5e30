--------------------------------- MODULE TxMC ---------------------------------
(* How the executors choose the engine for a frame, while code is compiled and dropped at any time:
   they ask once per code and keep the answer (Cached); the answers are forgotten when the protocol
   version changes (Forget).  Checked: a frame is always continued by the engine that began it, with
   a program for the version in force, and the logs kept by cutting back to a frame's beginning when
   it fails are those of frames that succeed all the way up. *)
EXTENDS Tx, TLC
CONSTANTS Codes, Forks, MaxDepth, MaxTold, MaxTx, Cached, Forget

VARIABLES frames, ready, known, fork, told, logs, bad, n
vars == <<frames, ready, known, fork, told, logs, bad, n>>

Unknown == [e |-> "", f |-> 0]
Init == /\ frames = <<>> /\ ready = {} /\ known = [c \in Codes |-> Unknown] /\ fork \in Forks
        /\ told = <<>> /\ logs = 0 /\ bad = "" /\ n = 0
Compile(c) == /\ ready' = ready \cup {<<c, fork>>} /\ UNCHANGED <<frames, known, fork, told, logs, bad, n>>
Drop(c) == /\ ready' = ready \ {<<c, fork>>} /\ UNCHANGED <<frames, known, fork, told, logs, bad, n>>
Switch(f) == /\ frames = <<>> /\ fork' = f /\ known' = IF Forget THEN [c \in Codes |-> Unknown] ELSE known
             /\ UNCHANGED <<frames, ready, told, logs, bad, n>>
Ev(t, e) == [t |-> t, x |-> "", e |-> e]
Start(c) == /\ frames = <<>> /\ n < MaxTx /\ n' = n + 1 /\ frames' = <<[c |-> c, e |-> "", at |-> 0]>> /\ told' = <<Ev("start", "")>> /\ logs' = 0
            /\ UNCHANGED <<ready, known, fork, bad>>
Answer(c) == IF Cached /\ known[c] # Unknown THEN known[c]
             ELSE IF <<c, fork>> \in ready THEN [e |-> "C", f |-> fork] ELSE [e |-> "I", f |-> fork]
Run == LET k == Len(frames) c == frames[k].c a == Answer(c) IN
  /\ frames # <<>> /\ known' = [known EXCEPT ![c] = a]
  /\ bad' = IF bad # "" THEN bad ELSE IF frames[k].e \notin {"", a.e} THEN "engine" ELSE IF a.e = "C" /\ a.f # fork THEN "fork" ELSE ""
  /\ \E m \in 0..1 :                      \* logs made on the way
     LET t == told \o [x \in 1..m |-> Ev("log", "")]
         self == [frames EXCEPT ![k].e = a.e] IN
     \/ /\ k < MaxDepth /\ Len(t) + 2 * k < MaxTold /\ \E d \in Codes : frames' = Append(self, [c |-> d, e |-> "", at |-> logs + m])
        /\ told' = Append(t, Ev("start", "")) /\ logs' = logs + m
     \/ \E r \in {"ok", "revert", "halt"} :
          /\ frames' = SubSeq(frames, 1, k - 1) /\ told' = Append(t, Ev("end", r))
          /\ logs' = IF r = "ok" THEN logs + m ELSE frames[k].at
  /\ UNCHANGED <<ready, fork, n>>
Next == \/ \E c \in Codes : Compile(c) \/ Drop(c) \/ Start(c)
        \/ \E f \in Forks : Switch(f)
        \/ Run
Spec == Init /\ [][Next]_vars
SameEngine == bad # "engine"
RightFork == bad # "fork"
LogsLast == frames = <<>> /\ told # <<>> => logs = Lasting(told)
=============================================================================
