---------------------------------- MODULE Tx ----------------------------------
(* A transaction, as its executor goes through it: a history of frames.

   A frame is begun with a request (init), runs until it either asks for another frame or ends (run;
   which engine ran it is noted: I the interpreter, C compiled code), and ends with an outcome (ret)
   which goes to the frame below.  A request may also be answered at once, without a frame (none,
   back: precompiles, empty accounts, too deep).

   Which engine runs a frame is not part of what a transaction means: with the runs left out, the
   histories of two executors are equal.  But a frame is suspended in the middle of its code by one
   engine, in that engine's terms, so it is the same engine that must continue it. *)
EXTENDS Integers, Sequences, FiniteSets

NotRun(e) == e.t # "run"
Observable(ev) == SelectSeq(ev, NotRun)

\* The frames begun and not ended, innermost last: [c: code, e: engine, "" before it first runs].
\* have: the code known to be available compiled; known: nothing else can be; strict: and it is used.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ev, k, stack, have, known, strict) ==
  IF k > Len(ev) THEN IF stack = <<>> THEN "" ELSE "open"
  ELSE LET e == ev[k] n == Len(stack) IN
    CASE e.t = "rest" -> ""
      [] e.t = "init" -> Walk(ev, k + 1, Append(stack, [c |-> e.c, e |-> ""]), have, known, strict)
      [] e.t = "run" ->
           IF n = 0 THEN "noframe"
           ELSE IF stack[n].e \notin {"", e.e} THEN "engine"
           ELSE IF e.e = "C" /\ known /\ stack[n].c \notin have THEN "uncompiled"
           ELSE IF e.e = "I" /\ strict /\ stack[n].c \in have THEN "ignored"
           ELSE Walk(ev, k + 1, [stack EXCEPT ![n].e = e.e], have, known, strict)
      [] e.t = "ret" -> IF n = 0 THEN "noframe" ELSE Walk(ev, k + 1, SubSeq(stack, 1, n - 1), have, known, strict)
      [] OTHER -> Walk(ev, k + 1, stack, have, known, strict)

(* What an inspector is told: start and end of frames, logs, self-destructs, properly nested.
   Compiled code charges for a stretch of instructions at once, so in a frame that runs out of gas it
   may stop before a log that the interpreter still makes; no such log outlives the frame.  Settled
   leaves out those of frames that halt (their own, not their callees'). *)
RECURSIVE Settle(_, _, _)
\* out: the open frames' events, innermost last; they join the caller's when the frame ends.
Settle(told, k, out) ==
  IF k > Len(told) THEN out
  ELSE LET e == told[k] n == Len(out) item == [t |-> e.t, x |-> e.x, e |-> e.e, of |-> <<>>] IN
    CASE e.t = "start" -> Settle(told, k + 1, Append(out, <<item>>))
      [] e.t = "end" /\ n > 1 ->
           LET own == IF e.e = "halt" THEN SelectSeq(out[n], LAMBDA x : x.t \notin {"log", "destroy"}) ELSE out[n]
           IN Settle(told, k + 1, [SubSeq(out, 1, n - 1) EXCEPT ![n - 1] = Append(@, [t |-> "frame", x |-> e.x, e |-> e.e, of |-> own])])
      [] OTHER -> Settle(told, k + 1, [out EXCEPT ![n] = Append(@, item)])
Settled(told) == Settle(told, 1, <<<<>>>>)

(* The logs that last: those of frames that succeed all the way up. *)
RECURSIVE Logs(_, _, _)
Logs(told, k, marks) ==           \* marks: how many there were when each open frame began; last: now
  LET n == Len(marks) IN
  IF k > Len(told) THEN marks[n]
  ELSE CASE told[k].t = "start" -> Logs(told, k + 1, Append(marks, marks[n]))
         [] told[k].t = "end" /\ n > 1 ->
              LET keep == IF told[k].e = "ok" THEN marks[n] ELSE marks[n - 1]
              IN Logs(told, k + 1, [SubSeq(marks, 1, n - 1) EXCEPT ![n - 1] = keep])
         [] told[k].t = "log" -> Logs(told, k + 1, [marks EXCEPT ![n] = @ + 1])
         [] OTHER -> Logs(told, k + 1, marks)
Lasting(told) == Logs(told, 1, <<0>>)
=============================================================================
