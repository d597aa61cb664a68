------------------------------- MODULE Hooks -------------------------------
(***************************************************************************)
(* A component with one reducer hook, rendered by batches of any of its    *)
(* queued updates: eager states, actions skipped because their lanes are   *)
(* not rendered, and rebasing them later in order; transient actions,      *)
(* which are only applied by renders of their lanes; and states that start *)
(* anew from what is passed to each render.                                *)
(***************************************************************************)
EXTENDS HooksMon
CONSTANTS LaneSets, Actions, MaxUpdates, WithFail, Pass \* Pass: the state starts anew in each render
VARIABLES q,       \* queued updates: [id, lanes, act] (act 0: a plain update)
          pl,      \* pending lanes of the component
          com,     \* its last render is committed
          pend, memo, base, cur,   \* pending and memoized actions, memoized and current state
          batch,   \* the batch being committed
          rendered, \* whether it rendered, the state, what it started from, and the transient actions it may apply
          n, mon
vars == <<q, pl, com, pend, memo, base, cur, batch, rendered, n, mon>>
H == {"h"}
None == <<FALSE, <<>>, <<>>, {}>>
Init == /\ q = {} /\ pl = {} /\ com = TRUE /\ pend = <<>> /\ memo = <<>> /\ base = <<>> /\ cur = <<>>
        /\ batch = {} /\ rendered = None /\ n = 0 /\ mon = MonInit(H)

Dispatch == \E a \in Actions, l \in LaneSets :
  /\ n < MaxUpdates /\ n' = n + 1
  /\ LET act == [id |-> n + 1, op |-> a.op, v |-> IF a.op = "app" THEN n + 1 ELSE a.v]
         eager == pend = <<>> /\ memo = <<>>
         drop == eager /\ Act(cur, act) = cur
     IN /\ mon' = MonDispatch(mon, "h", [id |-> n + 1, op |-> act.op, v |-> act.v, tr |-> a.tr, ls |-> l], drop, "", cur, Pass)
        /\ IF drop THEN UNCHANGED <<q, pl, pend>>
           ELSE /\ q' = q \cup {[id |-> n + 1, lanes |-> l]} /\ pl' = pl \cup l
                /\ pend' = Append(pend, [a |-> act, lanes |-> l, rl |-> IF a.tr THEN l ELSE {}, eager |-> eager, es |-> IF eager THEN Act(cur, act) ELSE <<>>])
  /\ UNCHANGED <<com, memo, base, cur, batch, rendered>>
Force == \E l \in LaneSets : /\ n < MaxUpdates /\ n' = n + 1 /\ q' = q \cup {[id |-> n + 1, lanes |-> l]} /\ pl' = pl \cup l
                             /\ UNCHANGED <<com, pend, memo, base, cur, batch, rendered, mon>>

\* Applies the actions covered by lanes R; the result keeps those skipped.
RECURSIVE Go(_, _, _, _, _)
Go(as, R, st, out, sk) ==
  IF as = <<>> THEN [st |-> st, as |-> out, sk |-> sk]
  ELSE LET x == Head(as) IN
       IF x.lanes \subseteq R
       THEN Go(Tail(as), R, IF x.eager /\ ~Pass THEN x.es ELSE Act(st, x.a), Append(out, [x EXCEPT !.lanes = x.rl]), sk \cup x.rl)
       ELSE Go(Tail(as), R, st, Append(out, x), sk \cup (x.lanes \ R))
\* Lanes that stay pending: those of the actions that were not applied.
Left(as, R) == UNION {as[k].lanes \ R : k \in {k \in 1..Len(as) : ~(as[k].lanes \subseteq R)}}

Render == \E U \in SUBSET q : \E iv \in (IF Pass THEN {<<>>, <<200>>} ELSE {<<>>}) :
  /\ batch = {} /\ U # {}
  /\ LET R == UNION {u.lanes : u \in U}
         does == ~com \/ \E u \in U : u.lanes \cap pl # {}
         as == memo \o pend
         g == Go(as, R, IF Pass THEN iv ELSE base, <<>>, {})
         L == UNION {u.lanes : u \in q}
     IN /\ batch' = U /\ q' = q \ U
        /\ IF does
           THEN /\ rendered' = <<TRUE, g.st, iv, {k \in Ids(mon.acts["h"]) : \A j \in 1..Len(mon.acts["h"]) : mon.acts["h"][j].id = k => mon.acts["h"][j].ls \subseteq L}>> /\ com' = FALSE
                /\ cur' = g.st /\ pend' = <<>>
                /\ memo' = (IF g.sk = {} THEN <<>> ELSE g.as)
                /\ base' = (IF g.sk = {} THEN g.st ELSE base)
                /\ pl' = (pl \ R) \cup Left(as, R)
           ELSE rendered' = None /\ UNCHANGED <<com, cur, pend, memo, base, pl>>
  /\ UNCHANGED <<n, mon>>
RECURSIVE FinishAll(_, _)
FinishAll(m, S) == IF S = {} THEN m ELSE LET x == CHOOSE x \in S : TRUE IN FinishAll(MonFinish(m, "h", x.id), S \ {x})
Commit == /\ batch # {}
          /\ mon' = FinishAll(IF rendered[1] THEN MonShow(mon, "h", rendered[2], rendered[3], rendered[4], Pass) ELSE mon, batch)
          /\ com' = TRUE /\ batch' = {} /\ rendered' = None
          /\ UNCHANGED <<q, pl, pend, memo, base, cur, n>>
\* The commit fails: the batch is rejected and nothing is shown.
Fail == /\ WithFail /\ batch # {} /\ batch' = {} /\ rendered' = None
        /\ UNCHANGED <<q, pl, com, pend, memo, base, cur, n, mon>>
Next == Dispatch \/ Force \/ Render \/ Commit \/ Fail
OK == mon.bad = {}
\* With nothing queued the current state is the fold over all actions.
Complete == q = {} /\ batch = {} /\ ~Pass => \E S \in SUBSET Transient(mon.acts["h"]) : MonEnd(mon, "h", cur, S).bad = {}
\* An update that is finished has been seen (unless the one render it lasts for failed to be committed).
Seen == \A k \in 1..Len(mon.acts["h"]) : LET x == mon.acts["h"][k] IN x.fin /\ (x.tr \/ Pass) /\ ~(Pass /\ WithFail) => x.seen
Small == {[op |-> "app", v |-> 0, tr |-> FALSE], [op |-> "set", v |-> 100, tr |-> FALSE], [op |-> "nop", v |-> 0, tr |-> FALSE], [op |-> "app", v |-> 0, tr |-> TRUE]}
=============================================================================
