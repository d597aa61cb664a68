------------------------------ MODULE HostTrace ------------------------------
(***************************************************************************)
(* Judges recordings of the DOM adapter over a fake browser (C22): which   *)
(* facility each request waits for, when it runs, and how it settles.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Has(f, k) == k \in DOMAIN f
\* A commit is to wait for a frame at least this long, and at most that long.
MinWait == 34
MaxWait == 1000
Continuous == {"drag", "dragenter", "dragleave", "dragover", "mouseenter", "mouseleave", "mousemove", "mouseout", "mouseover", "pointerenter", "pointerleave",
               "pointermove", "pointerout", "pointerover", "scroll", "touchmove", "wheel"}
Priority(inside, ready) ==
  IF inside # "none" THEN (IF inside \in Continuous THEN "user-visible" ELSE "user-blocking")
  ELSE IF ready # "complete" THEN "user-blocking" ELSE "background"
\* The facilities a request may wait for.
Facilities(cfg, what, prio, delay) ==
  IF what = "commit" THEN {"frame", "timer"}
  ELSE IF cfg.task THEN {"task"}
  ELSE IF delay > 0 THEN {"timer"}
  ELSE CASE prio = "user-blocking" -> {"message"}
         [] prio = "background" -> IF cfg.idle THEN {"idle"} ELSE {"timer"}
         [] OTHER -> {"timer"}
\* reqs: requests c -> [.., open, fired, fac, used, ran, over, settled]; owner: facility use k -> c.
MInit == [cfg |-> <<>>, reqs |-> Empty, owner |-> Empty, upds |-> Empty, want |-> "", frame |-> {}, fnow |-> FALSE, bad |-> {}]
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C22", why>>}]
Letters == {"abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
In(ch, s) == \E k \in 1..Len(s) : SubSeq(s, k, k) = ch
Valid(id) == /\ Len(id) > 0
             /\ \E s \in Letters : In(SubSeq(id, 1, 1), s)
             /\ \A k \in 2..Len(id) : \E s \in Letters \cup {"0123456789-_"} : In(SubSeq(id, k, k), s)
OnMade(mm, e) == [mm EXCEPT !.cfg = e, !.bad = @ \cup IF Valid(e.id) /\ Valid(e.other) /\ e.id # e.other THEN {} ELSE {<<"C24", "identifiers of hosts are not valid and distinct">>}]
OnReq(mm, e) == [mm EXCEPT !.reqs = Upd(@, e.c, [what |-> e.what, prio |-> e.prio, delay |-> e.delay, does |-> e.does, at |-> e.now, open |-> TRUE, fired |-> "", used |-> {}, ran |-> FALSE, over |-> e.does \in {"ok", "throw"}, settled |-> FALSE])]
\* The options of a task are passed on.
TaskOK(e, prio, delay) == (e.prio = prio \/ (prio \in {"", "user-visible"} /\ e.prio \in {"", "user-visible"})) /\ e.delay = delay
OnUse(mm, e) ==
  IF Has(mm.reqs, e.c) /\ mm.reqs[e.c].open THEN
    LET r == mm.reqs[e.c]
        m1 == Bad(mm, e.fac \in Facilities(mm.cfg, r.what, r.prio, r.delay), "a request waits for another facility than its priority calls for")
        m2 == Bad(m1, e.fac = "task" => TaskOK(e, r.prio, r.delay), "a task does not have the priority or delay asked for")
        m3 == Bad(m2, r.what = "callback" => r.used = {}, "a callback waits for several facilities")
    IN [m3 EXCEPT !.reqs[e.c].used = @ \cup {e.k}, !.owner = Upd(@, e.k, e.c)]
  ELSE IF Has(mm.upds, e.c) THEN
    LET u == mm.upds[e.c]
        m1 == Bad(mm, ~u.sync, "a synchronous update waits for the host")
        m2 == Bad(m1, e.fac \in Facilities(mm.cfg, "callback", u.prio, u.delay), "an update waits for another facility than its priority calls for")
    IN Bad(m2, e.fac = "task" => TaskOK(e, u.prio, u.delay), "the task of an update does not have its priority or delay")
  ELSE mm
OnReqEnd(mm, e) == Bad([mm EXCEPT !.reqs[e.c].open = FALSE], mm.reqs[e.c].used # {}, "a request waits for nothing")
OnFired(mm, e) == IF Has(mm.owner, e.k) /\ mm.reqs[mm.owner[e.k]].fired = "" THEN [mm EXCEPT !.reqs[mm.owner[e.k]].fired = e.fac] ELSE mm
OnRun(mm, e) ==
  LET r == mm.reqs[e.c]
      m1 == Bad(mm, ~r.open, "a request ran synchronously")
      m2 == Bad(m1, ~r.ran, "a request ran twice")
      m3 == Bad(m2, r.fired # "", "a request ran before what it waits for")
      m4 == Bad(m3, e.now - r.at >= r.delay, "a callback ran before its delay")
      m5 == Bad(m4, r.what = "commit" => (r.fired = "frame" \/ (e.now - r.at >= MinWait /\ e.now - r.at <= MaxWait)), "a commit did not wait for the next frame, or waited too long")
      over == {d \in DOMAIN mm.reqs : LET o == mm.reqs[d] IN o.what = "callback" /\ ~o.ran /\ o.delay = 0 /\ o.at <= r.at /\ d < e.c /\ o.prio \in {"", "user-visible"}}
      m6 == Bad(m5, r.what = "callback" /\ r.prio = "background" /\ r.delay = 0 => over = {}, "a callback overtook one of higher priority")
  IN [m6 EXCEPT !.reqs[e.c].ran = TRUE]
\* What a facility was waited for has run when it is done.
OnDone(mm, e) == Bad(mm, Has(mm.owner, e.k) => mm.reqs[mm.owner[e.k]].ran, "a request did not run when it was due")
OnFrame(mm, e) == [mm EXCEPT !.frame = {c \in DOMAIN mm.reqs : mm.reqs[c].what = "commit" /\ ~mm.reqs[c].ran}]
OnFramed(mm, e) == Bad([mm EXCEPT !.frame = {}], \A c \in mm.frame : mm.reqs[c].ran, "a commit did not run on the next frame")
OnSettled(mm, e) ==
  LET r == mm.reqs[e.c]
      m1 == Bad(mm, r.ran /\ r.over, "a request settled before it was over")
      m2 == Bad(m1, e.ok <=> r.does \in {"ok", "async"}, "a request settled with another outcome")
      m3 == Bad(m2, e.own, "a request failed with another error")
  IN [m3 EXCEPT !.reqs[e.c].settled = TRUE]
OnUpd(mm, e) == [mm EXCEPT !.want = ToString(e.to),
  !.upds = Upd(@, e.c, [prio |-> IF e.prio # "" THEN e.prio ELSE IF e.delay > 0 \/ e.trans >= 0 THEN "background" ELSE Priority(e.inside, "complete"), delay |-> e.delay, sync |-> e.sync, over |-> FALSE])]
OnUpdated(mm, e) == Bad([mm EXCEPT !.upds[e.c].over = TRUE], e.ok, "an update failed")
OnDrained(mm, e) ==
  LET m1 == Bad(mm, \A c \in DOMAIN mm.reqs : mm.reqs[c].ran, "a request never ran")
      m2 == Bad(m1, \A c \in DOMAIN mm.reqs : mm.reqs[c].settled, "a request never settled")
      m3 == Bad(m2, \A c \in DOMAIN mm.upds : mm.upds[c].over, "an update is never over")
  IN Bad(m3, e.shown = mm.want, "the last update is not shown")
MonStep(mm, e) ==
  CASE e.e = "made"     -> OnMade(mm, e)
    [] e.e = "req"      -> OnReq(mm, e)
    [] e.e = "use"      -> OnUse(mm, e)
    [] e.e = "reqend"   -> OnReqEnd(mm, e)
    [] e.e = "fired"    -> OnFired(mm, e)
    [] e.e = "run"      -> OnRun(mm, e)
    [] e.e = "ran"      -> [mm EXCEPT !.reqs[e.c].over = TRUE]
    [] e.e = "done"     -> OnDone(mm, e)
    [] e.e = "frame"    -> OnFrame(mm, e)
    [] e.e = "framed"   -> OnFramed(mm, e)
    [] e.e = "settled"  -> OnSettled(mm, e)
    [] e.e = "upd"      -> OnUpd(mm, e)
    [] e.e = "updend"   -> mm
    [] e.e = "updated"  -> OnUpdated(mm, e)
    [] e.e = "shown"    -> mm
    [] e.e = "priority" -> Bad(mm, e.is = Priority(e.inside, e.ready), "an update has another default priority")
    [] e.e = "drained"  -> OnDrained(mm, e)
    [] OTHER            -> [mm EXCEPT !.bad = @ \cup {<<"ALL", "unexpected event " \o e.e>>}]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
