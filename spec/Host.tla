-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The protocol between the DOM adapter and the browser (C22).             *)
(*                                                                         *)
(* A browser may or may not offer prioritized tasks and idle callbacks, and*)
(* it may stop rendering frames.  A callback waits for one facility, chosen*)
(* by its priority and delay; a commit waits for a frame and for a timer,  *)
(* the first of which cancels the other.  Time is counted in ticks.        *)
(*                                                                         *)
(* Checked: every callback and commit runs at most once, a callback never  *)
(* overtakes one of higher priority that waits for the same kind of queue, *)
(* a commit waits no longer than Bound, and, even if no frame ever comes   *)
(* and the browser is never idle while anything else is due, everything    *)
(* that is requested runs.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxReq, Bound
Prios == {"user-blocking", "user-visible", "background"}
VARIABLES has, cbs, commits
vars == <<has, cbs, commits>>
\* The facility a callback waits for.
Facility(h, prio, delay) ==
  IF h.task THEN "task"
  ELSE IF delay > 0 THEN "timer"
  ELSE CASE prio = "user-blocking" -> "message"
         [] prio = "background" -> IF h.idle THEN "idle" ELSE "timer"
         [] OTHER -> "timer"
\* Remaining ticks until it is due: background timers are due later than others.
Wait(h, prio, delay) == IF delay > 0 THEN delay ELSE IF Facility(h, prio, delay) = "timer" /\ prio = "background" THEN 1 ELSE 0
Init == has \in [task : BOOLEAN, idle : BOOLEAN] /\ cbs = <<>> /\ commits = <<>>
Request(prio, delay) ==
  /\ Len(cbs) + Len(commits) < MaxReq
  /\ cbs' = Append(cbs, [prio |-> prio, delay |-> delay, fac |-> Facility(has, prio, delay), left |-> Wait(has, prio, delay), age |-> 0, ran |-> 0])
  /\ UNCHANGED <<has, commits>>
RequestCommit ==
  /\ Len(cbs) + Len(commits) < MaxReq
  /\ commits' = Append(commits, [frame |-> TRUE, timer |-> TRUE, left |-> Bound, age |-> 0, ran |-> 0])
  /\ UNCHANGED <<has, cbs>>
Waiting == {c \in DOMAIN cbs : cbs[c].ran = 0}
Due(f) == {c \in Waiting : cbs[c].fac = f /\ cbs[c].left = 0}
Rank(p) == CASE p = "user-blocking" -> 0 [] p = "user-visible" -> 1 [] OTHER -> 2
\* Tasks run by priority, then in order; messages and timers in order.
First(f) == {c \in Due(f) : \A d \in Due(f) : IF f = "task" THEN Rank(cbs[c].prio) < Rank(cbs[d].prio) \/ (Rank(cbs[c].prio) = Rank(cbs[d].prio) /\ c <= d) ELSE c <= d}
TimedOut == {c \in DOMAIN commits : commits[c].timer /\ commits[c].left = 0}
Busy == Due("task") \cup Due("message") \cup Due("timer") # {} \/ TimedOut # {}
Run(f) == /\ f = "idle" => ~Busy
          /\ \E c \in First(f) : cbs' = [cbs EXCEPT ![c].ran = @ + 1]
          /\ UNCHANGED <<has, commits>>
Frame == /\ \E c \in DOMAIN commits : commits[c].frame
         /\ commits' = [c \in DOMAIN commits |-> IF commits[c].frame THEN [commits[c] EXCEPT !.frame = FALSE, !.timer = FALSE, !.ran = @ + 1] ELSE commits[c]]
         /\ UNCHANGED <<has, cbs>>
TimeOut == /\ \E c \in TimedOut : commits' = [commits EXCEPT ![c] = [@ EXCEPT !.timer = FALSE, !.frame = FALSE, !.ran = @ + 1]]
           /\ UNCHANGED <<has, cbs>>
\* Time passes when nothing is due.
Pass == /\ ~Busy
        /\ (\E c \in Waiting : cbs[c].left > 0) \/ (\E d \in DOMAIN commits : commits[d].timer)
        /\ cbs' = [c \in DOMAIN cbs |-> IF cbs[c].ran > 0 THEN cbs[c] ELSE [cbs[c] EXCEPT !.left = IF @ > 0 THEN @ - 1 ELSE 0]]
        /\ commits' = [c \in DOMAIN commits |-> IF commits[c].timer THEN [commits[c] EXCEPT !.left = @ - 1, !.age = @ + 1] ELSE commits[c]]
        /\ UNCHANGED has
Facilities == {"task", "message", "timer", "idle"}
Next == \/ \E p \in Prios, d \in {0, 2} : Request(p, d)
        \/ RequestCommit
        \/ \E f \in Facilities : Run(f)
        \/ Frame \/ TimeOut \/ Pass
Fair == /\ \A f \in Facilities : WF_vars(Run(f))
        /\ WF_vars(TimeOut) /\ WF_vars(Pass)
Spec == Init /\ [][Next]_vars /\ Fair
Once == (\A c \in DOMAIN cbs : cbs[c].ran <= 1) /\ (\A c \in DOMAIN commits : commits[c].ran <= 1)
Bounded == \A c \in DOMAIN commits : commits[c].age <= Bound
Delayed == \A c \in DOMAIN cbs : cbs[c].ran > 0 => cbs[c].left = 0
\* A background callback never runs before a user-visible one requested earlier and not delayed.
Ordered == \A c, d \in DOMAIN cbs : cbs[c].prio = "background" /\ cbs[c].delay = 0 /\ cbs[d].prio # "background" /\ cbs[d].delay = 0 /\ d < c /\ cbs[c].ran > 0 => cbs[d].ran > 0 \/ (cbs[d].fac # cbs[c].fac /\ cbs[d].fac = "message")
NothingLeft == \A c \in DOMAIN commits : commits[c].ran = 1 => ~commits[c].frame /\ ~commits[c].timer
AllRun == []<>((\A c \in DOMAIN cbs : cbs[c].ran = 1) /\ (\A c \in DOMAIN commits : commits[c].ran = 1))
=============================================================================
