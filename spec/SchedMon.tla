------------------------------ MODULE SchedMon ------------------------------
(***************************************************************************)
(* What a user of the update scheduler may rely on (C06, C07, C08, C21,    *)
(* part of C24), as a monitor over the observable events of a runtime:     *)
(* requests, host callbacks, renders, commits and settlements.             *)
(*                                                                         *)
(* The same monitor judges the design (Sched.tla, exhaustively) and the    *)
(* implementation (SchedTrace.tla, on recorded executions).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PrioLane(p) == CASE p = "user-blocking" -> 2
                 [] p = "user-visible"  -> 3
                 [] p = "background"    -> 4

\* Lane numbers in order of priority: 0 sync, 1 handler, 2-4 host priorities,
\* 5-28 transitions, 29 short delay, 30 long delay.
LanesOf(o, dflt) ==
  LET l == (IF o.sync THEN {0} ELSE {})
           \cup (IF o.hand THEN {1} ELSE {})
           \cup (IF o.prio # "" THEN {PrioLane(o.prio)} ELSE {})
           \cup (IF o.trans >= 0 THEN {5 + (o.trans % 24)} ELSE {})
           \cup (IF o.delay >= 0 THEN {IF o.delay <= 100 THEN 29 ELSE 30} ELSE {})
  IN IF l = {} THEN {PrioLane(dflt)} ELSE l

\* The priority at which the host callback of an update has to be requested.
ReqPrio(o, dflt) == IF o.prio # "" THEN o.prio
                    ELSE IF o.sync \/ o.hand THEN "user-blocking"
                    ELSE IF o.trans >= 0 \/ o.delay >= 0 THEN "background" ELSE dflt

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* u precedes v: by priority, then depth, then request order.
Before(U, u, v) ==
  \/ U[u].rank < U[v].rank
  \/ U[u].rank = U[v].rank /\ U[u].level < U[v].level
  \/ U[u].rank = U[v].rank /\ U[u].level = U[v].level /\ u < v

\* The order of renders within a batch.
RenderBefore(U, u, v) ==
  \/ U[u].level < U[v].level
  \/ U[u].level = U[v].level /\ Before(U, u, v)

MonInit ==
  [ up    |-> <<>>,       \* requested updates, in order
    cur   |-> 0,          \* update being requested
    req   |-> {},         \* callbacks requested by it
    out   |-> {},         \* host callbacks outstanding
    ph    |-> "idle",     \* phase of the current batch
    batch |-> <<>>,       \* its rendered updates, in order
    ncom  |-> 0,          \* how many of them have committed
    snap  |-> {},         \* updates that were ready when it started
    elig  |-> 0,          \* updates requested before it started
    via   |-> "",         \* who drives its commits: "", host, handler
    outc  |-> 0,          \* commits the host or a handler has yet to run
    inrun |-> "",         \* commit request being run
    fails |-> {},         \* failed batches
    mws   |-> <<>>,       \* middlewares, in order
    stack |-> <<>>,       \* middleware calls in progress
    mwc   |-> <<>>,       \* middleware commits in progress
    last  |-> <<0, 0>>,   \* the last update committed, and how many of its batch before it
    cerr  |-> "",         \* the first error of the commits of the batch
    lastid |-> -1,
    addons |-> FALSE,
    bad   |-> {} ]

Chk(m, ok, prop, why) == IF ok THEN m ELSE [m EXCEPT !.bad = @ \cup {<<prop, why>>}]

Range(s) == {s[i] : i \in 1..Len(s)}

\* A later render of the same component may stand for u, once it is committed.
Subsumed(m, u) == ~m.up[u].ren /\ \E v \in m.up[u].passed : m.up[v].com

Rejectable(m, u) == \E f \in m.fails : u \in f.allowed

\* Ready: the callback that stands for u has run and u has not been dealt with.
Ready(m, u) == /\ m.up[u].st = "q" /\ ~m.up[u].ren /\ m.up[u].due
               /\ ~Subsumed(m, u) /\ ~Rejectable(m, u)

\* At the end of a batch, nothing that was ready may have been overtaken.
EndBatch(m, err) ==
  LET B  == Range(m.batch)
      b0 == IF B = {} THEN 0 ELSE CHOOSE u \in B : \A v \in B \ {u} : Before(m.up, u, v)
      m1 == Chk(m, \A v \in m.snap : v \in B \/ Subsumed(m, v) \/ b0 = 0 \/ Before(m.up, b0, v)
                     \/ (err # "" /\ v <= m.elig),
                "C08", "an update was overtaken by one of lower rank")
  IN [m1 EXCEPT !.ph = "idle", !.batch = <<>>, !.ncom = 0, !.mwc = <<>>, !.cerr = "", !.snap = {}, !.via = "", !.inrun = "",
        !.fails = IF err = "" THEN @
                  ELSE @ \cup {[err |-> err, members |-> B,
                                allowed |-> {u \in 1..m.elig : m.up[u].st = "q" /\ (u \in B \/ ~m.up[u].ren)}]}]

\* The commits of a batch are made also after one that failed.
Cut(m) == IF m.ph = "commit" /\ m.cerr # "" THEN EndBatch(Chk(m, FALSE, "C26", "a commit that failed kept others of its batch from being made"), m.cerr) ELSE m

MonSched(m, e) ==
  LET l == LanesOf(e.o, e.dflt)
  IN [m EXCEPT !.cur = e.u, !.req = {},
       !.up = Append(@, [lanes |-> l, rank |-> MinOf(l), level |-> e.level, tgt |-> e.tgt, kind |-> e.kind,
                         prio |-> ReqPrio(e.o, e.dflt), delay |-> e.o.delay, sync |-> e.o.sync, hand |-> e.o.hand /\ ~e.o.sync, st |-> "q", ren |-> FALSE, com |-> FALSE, id |-> -1, logger |-> 0, profiler |-> 0,
                         passed |-> {}, wait |-> {}, due |-> FALSE, ticked |-> FALSE, mws |-> <<>>])]

MonReq(m, e) ==
  LET m1 == [m EXCEPT !.out = @ \cup {e.cb}, !.req = @ \cup {e.cb}]
      u  == m.up[m.cur]
  IN Chk(m1, m.cur > 0 /\ e.prio = u.prio /\ e.delay = u.delay, "C22", "a callback was not requested as asked for")

\* The call returned: u waits for its own callback, or else for all outstanding ones;
\* a sync update waits for the microtask queue only.
MonSchedRet(m, e) ==
  LET u == m.cur
      w == IF m.up[u].sync THEN {} ELSE IF m.req # {} THEN m.req ELSE m.out
      m1 == Chk(m, e.id > m.lastid, "C24", "update ids are not increasing")
  IN [m1 EXCEPT !.up[u].wait = w, !.up[u].due = (w = {} /\ ~m.up[u].sync), !.up[u].id = e.id, !.cur = 0, !.req = {}, !.lastid = e.id]

MonFire(m, e) ==
  [m EXCEPT !.out = @ \ {e.cb},
     !.up = [u \in 1..Len(m.up) |->
       [m.up[u] EXCEPT !.wait = @ \ {e.cb},
                       !.due = @ \/ (m.up[u].wait # {} /\ m.up[u].wait \ {e.cb} = {})]]]

MonRender(m, e) ==
  LET u  == e.u
      m0 == Cut(IF m.ph = "commit" /\ m.ncom = Len(m.batch) THEN EndBatch(m, "") ELSE m)
      m1 == Chk(m0, m0.ph # "commit", "C08", "rendered between the commits of a batch")
      m2 == IF m1.ph = "idle"
            THEN [m1 EXCEPT !.ph = "render", !.elig = Len(m1.up), !.via = "",
                            !.snap = {v \in 1..Len(m1.up) : Ready(m1, v)}]
            ELSE m1
      m3 == Chk(m2, ~m2.up[u].ren, "C08", "an update was rendered twice")
      m4 == Chk(m3, m3.batch = <<>> \/ RenderBefore(m3.up, m3.batch[Len(m3.batch)], u),
                "C08", "batch rendered out of order")
      m5 == Chk(m4, m4.via = "", "C08", "rendered after the commit was requested")
      m6 == Chk(m5, [i \in 1..Len(m5.stack) |-> m5.stack[i]] = [i \in 1..Len(m5.mws) |-> <<m5.mws[i], u>>],
                "C21", "rendered outside of the registered middlewares")
      m7 == Chk(m6, ~m6.up[u].hand \/ m6.batch = <<>>, "C08", "a handler update shares its batch")
      m8 == Chk(m7, \A v \in Range(m7.batch) : ~m7.up[v].hand, "C08", "a handler update shares its batch")
  IN [m8 EXCEPT !.batch = Append(@, u), !.up[u].ren = TRUE, !.up[u].mws = m8.mws]

\* A component target rendered: its older updates need no render of their own.
MonPassed(m, e) ==
  [m EXCEPT !.up = [v \in 1..Len(m.up) |->
      IF m.up[e.u].kind = "comp" /\ m.up[v].tgt = m.up[e.u].tgt /\ v # e.u /\ ~m.up[v].ren THEN [m.up[v] EXCEPT !.passed = @ \cup {e.u}] ELSE m.up[v]]]

Committed(m) == IF m.ncom = Len(m.batch) /\ m.cerr # "" THEN EndBatch(m, m.cerr) ELSE m

MonCommit(m, e) ==
  LET u  == e.u
      m1 == Chk(m, m.ph \in {"render", "commit"} /\ m.ncom < Len(m.batch) /\ m.batch[m.ncom + 1] = u,
                "C08", "commit out of order or without its render")
      sy == \E v \in 1..Len(m.up) : m.up[v].sync /\ (v \in Range(m.batch) \/ (m.up[v].st = "q" /\ ~m.up[v].ren))
      m2 == CASE m1.inrun = "host" -> Chk(m1, ~\E v \in Range(m.batch) : m.up[v].sync \/ m.up[v].hand,
                                          "C08", "a sync or handler update was committed by the host")
              [] m1.inrun = "handler" -> Chk(m1, \A v \in Range(m.batch) : m.up[v].hand,
                                          "C08", "an update was committed by the handler of another")
              [] OTHER -> Chk(m1, sy /\ ~m.up[u].hand /\ m1.via = "", "C08", "committed without the host")
      m3 == Chk(m2, m2.mwc = [i \in 1..Len(m2.up[u].mws) |-> <<m2.up[u].mws[i], u>>],
                "C21", "committed without the middlewares that rendered it")
  IN Committed([m3 EXCEPT !.last = <<u, m.ncom>>, !.ph = "commit", !.ncom = @ + 1, !.up[u].com = TRUE, !.mwc = <<>>])

\* A commit that throws.
MonCFail(m, e) ==
  LET m1 == Chk(m, m.ph \in {"render", "commit"} /\ m.ncom < Len(m.batch), "C08", "commit out of order or without its render")
  IN Committed([m1 EXCEPT !.last = <<IF m.ncom < Len(m.batch) THEN m.batch[m.ncom + 1] ELSE 0, m.ncom>>, !.ph = "commit", !.ncom = @ + 1, !.mwc = <<>>, !.cerr = IF @ = "" THEN e.err ELSE @])

\* What must have settled when all microtasks have run.
MonTick(m) ==
  LET m0 == IF m.ph = "commit" /\ m.ncom = Len(m.batch) THEN EndBatch(m, "") ELSE IF m.outc = 0 THEN Cut(m) ELSE m
      m1 == [m0 EXCEPT !.up = [u \in 1..Len(m0.up) |->
               IF m0.up[u].sync /\ m0.up[u].st = "q" THEN [m0.up[u] EXCEPT !.due = TRUE] ELSE m0.up[u]]]
      m2 == Chk(m1, \A f \in m1.fails : \A u \in f.members : m1.up[u].st # "q", "C06", "a failed update did not settle")
      m3 == Chk(m2, \A u \in 1..Len(m2.up) : m2.up[u].com /\ (m2.outc = 0 \/ u \notin Range(m2.batch)) => m2.up[u].st # "q",
                "C06", "a committed update did not settle")
      m4 == Chk(m3, m3.outc > 0 \/ m3.ph = "idle", "C07", "a batch was never committed")
      m5 == Chk(m4, m4.outc > 0 \/ \A u \in 1..Len(m4.up) : m4.up[u].due => m4.up[u].st # "q",
                "C07", "a due update was not run")
      m6 == Chk(m5, m5.addons => \A u \in 1..Len(m5.up) : m5.up[u].com => m5.up[u].logger = 1 /\ m5.up[u].profiler = 1,
                "C21", "a committed update was not reported exactly once")
  IN m6

Under == <<"Object", "Object > C", "Object > C > C", "Object > C > C > C">>
Told(x, e, placed) ==
  /\ placed
  /\ e.under = Under[x.level + 1]
  /\ e.prio = (IF x.rank <= 2 THEN "user-blocking" ELSE IF x.rank = 3 THEN "user-visible" ELSE "background")
  /\ e.mode = (IF x.sync THEN "synchronous" ELSE IF x.hand THEN "user-handler" ELSE "animation-frame")
\* A report of the logger or the profiler.
MonRep(m, e) ==
  LET U == {u \in 1..Len(m.up) : m.up[u].id = e.id}
      u == CHOOSE x \in U : TRUE
  IN IF U = {} THEN Chk(m, FALSE, "C21", "an unknown update was reported")
     ELSE IF e.owner # (IF m.up[u].level = 0 THEN "Object" ELSE "C") THEN Chk(m, FALSE, "C21", "an update was reported of another owner")
     ELSE IF ~e.ok THEN Chk(m, ~m.up[u].com, "C21", "a committed update was reported as failed")
     ELSE IF e.by = "logger" /\ ~Told(m.up[u], e, <<u, e.tx>> = m.last)
          THEN Chk(m, FALSE, "C21", "a report does not tell what happened")
     ELSE IF e.by = "logger" THEN [m EXCEPT !.up[u].logger = @ + 1]
     ELSE [m EXCEPT !.up[u].profiler = @ + 1]

MonSettle(m_, e) ==
  LET u  == e.u
      ok == e.err = ""
      m  == IF e.err = m_.cerr THEN Cut(m_) ELSE m_
      m1 == Chk(m, m.up[u].st = "q", "C06", "an update settled twice")
      m2 == IF ok THEN Chk(m1, m.up[u].com \/ Subsumed(m, u), "C06", "an update was fulfilled before it was visible")
                  ELSE Chk(m1, ~m.up[u].com \/ \E f \in m.fails : u \in f.members, "C06", "a committed update was rejected")
      m3 == IF ok THEN Chk(m2, \A f \in m2.fails : u \notin f.members, "C06", "a failed update was fulfilled")
                  ELSE Chk(m2, \E f \in m2.fails : f.err = e.err /\ u \in f.allowed, "C06", "an update was rejected by an unrelated error")
      m4 == Chk(m3, m3.up[u].due \/ m3.up[u].ren \/ Subsumed(m3, u) \/ ~ok \/ m3.up[u].sync, "C06", "an update was fulfilled that was never run")
  IN [m4 EXCEPT !.up[u].st = IF ok THEN "done" ELSE "err"]

MonStep(m, e) ==
  CASE e.e = "sched"    -> MonSched(m, e)
    [] e.e = "req"      -> MonReq(m, e)
    [] e.e = "schedret" -> MonSchedRet(m, e)
    [] e.e = "fire"     -> MonFire(m, e)
    [] e.e = "render"   -> MonPassed(MonRender(m, e), e)
    [] e.e = "rfail"    -> EndBatch(m, e.err)
    [] e.e = "commit"   -> MonCommit(m, e)
    [] e.e = "cfail"    -> MonCFail(m, e)
    [] e.e = "reqc"     -> LET m1 == Chk(m, m.via = "" /\ m.ph = "render", "C08", "a commit was requested twice or without renders")
                           IN [m1 EXCEPT !.via = e.via, !.outc = @ + 1]
    [] e.e = "runc"     -> [m EXCEPT !.inrun = e.via]
    [] e.e = "runcend"  -> LET m0 == Cut(m)
                               m1 == Chk(m0, m0.ph = "idle" \/ m0.ncom = Len(m0.batch), "C08", "a batch was committed in part")
                           IN [m1 EXCEPT !.inrun = "", !.outc = @ - 1]
    [] e.e = "failc"    -> [EndBatch(m, e.err) EXCEPT !.outc = @ - 1]
    [] e.e = "settle"   -> MonSettle(m, e)
    [] e.e = "tick"     -> MonTick(m)
    [] e.e = "mwadd"    -> [m EXCEPT !.mws = Append(@, e.i)]
    [] e.e = "mwdel"    -> [m EXCEPT !.mws = SelectSeq(@, LAMBDA x : x # e.i)]
    [] e.e = "mwin"     -> [Chk(m, Len(m.stack) < Len(m.mws) /\ m.mws[Len(m.stack) + 1] = e.i, "C21", "middlewares out of order")
                              EXCEPT !.stack = Append(@, <<e.i, e.u>>)]
    [] e.e = "mwout"    -> [m EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.e = "mwc"      -> [m EXCEPT !.mwc = Append(@, <<e.i, e.u>>)]
    [] e.e = "addons" -> [m EXCEPT !.addons = TRUE]
    [] e.e = "rep"    -> MonRep(m, e)
    [] e.e = "end"      -> LET m1 == MonTick(m)
                           IN Chk(m1, \A u \in 1..Len(m1.up) : m1.up[u].st # "q", "C07", "an update never settled")
    [] OTHER            -> [m EXCEPT !.bad = @ \cup {<<"ALL", "unexpected event " \o e.e>>}]
=============================================================================
