------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The update scheduler: a priority queue, one host callback per distinct  *)
(* set of lanes, and a flush loop that collects, renders and commits one   *)
(* batch at a time, suspended while the host or a handler commits it.      *)
(*                                                                         *)
(* Host, microtask queue and users are the environment: it requests        *)
(* updates, runs callbacks in any order, runs or fails commits, drains     *)
(* microtasks, adds and removes middlewares. Every observable event is fed *)
(* to SchedMon. Each behaviour also is a script of stimuli for the code.   *)
(***************************************************************************)
EXTENDS SchedMon, Json, IOUtils

CONSTANTS Kinds,      \* the updates that may be requested
          MaxUp,      \* how many
          MaxOps,     \* how many stimuli
          Mws         \* middlewares

\* Update kinds, written without braces and nesting for use in configurations.
O(s, h, p, t, d) == [sync |-> s, hand |-> h, prio |-> p, trans |-> t, delay |-> d]
Plain   == O(FALSE, FALSE, "", -1, -1)
Sync    == O(TRUE, FALSE, "", -1, -1)
Hand    == O(FALSE, TRUE, "", -1, -1)
UB      == O(FALSE, FALSE, "user-blocking", -1, -1)
UV      == O(FALSE, FALSE, "user-visible", -1, -1)
BG      == O(FALSE, FALSE, "background", -1, -1)
Tr(n)   == O(FALSE, FALSE, "", n, -1)
UBTr(n) == O(FALSE, FALSE, "user-blocking", n, -1)
Dl(d)   == O(FALSE, FALSE, "", -1, d)
SyncUB  == O(TRUE, FALSE, "user-blocking", -1, -1)
SyncHand == O(TRUE, TRUE, "", -1, -1)
HandUB  == O(FALSE, TRUE, "user-blocking", -1, -1)
HandBG  == O(FALSE, TRUE, "background", -1, -1)
UVDl(d) == O(FALSE, FALSE, "user-visible", -1, d)

\* o: options; tgt: target; fail: "", "r" (render), "c" (commit);
\* sub: "", "r", "c": requests another update while it renders or commits;
\* hm: handler commits "late" or "now" (within the call).
K(o, tgt, fail, sub, hm) == [o |-> o, tgt |-> tgt, fail |-> fail, sub |-> sub, hm |-> hm]

Targets == [root1 |-> [level |-> 0, kind |-> "root"], root2 |-> [level |-> 0, kind |-> "root"],
            comp1 |-> [level |-> 1, kind |-> "comp"], comp2 |-> [level |-> 2, kind |-> "comp"],
            sub   |-> [level |-> 3, kind |-> "comp"]]

SmallKinds ==
  {K(o, t, "", "", "late") : o \in {Sync, UB, BG}, t \in {"root1", "comp1"}}
  \cup {K(Hand, "root2", "", "", "late"), K(UBTr(0), "comp1", "", "", "late"),
        K(UB, "root2", "r", "", "late"), K(UB, "comp2", "c", "", "late")}
MixKinds ==
  {K(o, t, "", "", "late") : o \in {Sync, Hand, UB, UV, BG, Tr(0), UBTr(1)}, t \in {"root1", "comp1", "comp2"}}
  \cup {K(o, "root2", f, "", "late") : o \in {Sync, Hand, UB, UBTr(0)}, f \in {"r", "c"}}
AllKinds ==
  {K(o, t, f, s, h) : o \in {Plain, Sync, Hand, UB, UV, BG, Tr(0), Tr(1), Tr(24), UBTr(0), Dl(50), Dl(200), SyncUB, SyncHand, HandUB, HandBG, UVDl(10)},
                      t \in {"root1", "root2", "comp1", "comp2"}, f \in {"", "", "", "r", "c"}, s \in {"", "r", "c"}, h \in {"late", "now"}}
\* Draws most updates without faults.
DrawKinds ==
  LET k == RandomElement(AllKinds)
      r == RandomElement(1..10)
  IN {IF r <= 5 THEN [k EXCEPT !.fail = "", !.sub = ""] ELSE IF r <= 7 THEN [k EXCEPT !.fail = ""] ELSE k}
GenKinds == IF "GENERATE" \in DOMAIN IOEnv THEN DrawKinds ELSE Kinds

VARIABLES s, script
vars == <<s, script>>

Init0 ==
  [ k     |-> <<>>,     \* kinds of the requested updates
    q     |-> {},       \* queue
    pend  |-> {},       \* lane sets with a callback outstanding
    staged |-> {}, flush |-> {}, batch |-> <<>>, ren |-> <<>>,
    wait  |-> "",       \* "", "host", "handler": who has to commit the batch
    cbs   |-> <<>>,     \* host callbacks: [id, l]
    micro |-> <<>>,     \* microtasks
    sett  |-> <<>>,     \* settlements to be observed
    ncb   |-> 0,
    mask  |-> [t \in {"comp1", "comp2", "sub"} |-> {}],
    unc   |-> [t \in {"comp1", "comp2", "sub"} |-> FALSE],
    mws   |-> <<>>,
    mon   |-> MonInit ]

Generating == "GENERATE" \in DOMAIN IOEnv
Ev(st, e) == IF Generating THEN st ELSE [st EXCEPT !.mon = MonStep(@, e)]

Lanes(st, u) == LanesOf(st.k[u].o, "user-visible")
LevelOf(st, u) == Targets[st.k[u].tgt].level
QBefore(st, u, v) == LET a == MinOf(Lanes(st, u)) b == MinOf(Lanes(st, v))
  IN \/ a < b
     \/ a = b /\ LevelOf(st, u) < LevelOf(st, v)
     \/ a = b /\ LevelOf(st, u) = LevelOf(st, v) /\ u < v
Top(st, S) == CHOOSE u \in S : \A v \in S \ {u} : QBefore(st, u, v)
IsComp(st, u) == Targets[st.k[u].tgt].kind = "comp"

\* Requesting an update.
DoSched(st, k) ==
  LET u  == Len(st.k) + 1
      t  == Targets[k.tgt]
      s1 == Ev([st EXCEPT !.k = Append(@, k), !.q = @ \cup {u}],
               [e |-> "sched", u |-> u, o |-> k.o, dflt |-> "user-visible", level |-> t.level, tgt |-> k.tgt, kind |-> t.kind])
      l  == Lanes(s1, u)
      s2 == IF l \subseteq s1.staged \/ l \in s1.pend THEN s1
            ELSE IF 0 \in l
            THEN [s1 EXCEPT !.pend = @ \cup {l}, !.micro = Append(@, [k |-> "cb", l |-> l])]
            ELSE Ev([s1 EXCEPT !.pend = @ \cup {l}, !.ncb = @ + 1, !.cbs = Append(@, [id |-> s1.ncb + 1, l |-> l])],
                    [e |-> "req", cb |-> s1.ncb + 1, prio |-> ReqPrio(k.o, "user-visible"), delay |-> k.o.delay])
      s3 == IF t.kind = "comp" THEN [s2 EXCEPT !.mask[k.tgt] = @ \cup l] ELSE s2
  IN Ev(s3, [e |-> "schedret", id |-> u - 1])

SubKind == K(UB, "sub", "", "", "late")

\* Collecting a batch.
RECURSIVE Collect(_, _)
Collect(st, def) ==
  LET R == st.q \ def IN
  IF R = {} THEN st
  ELSE LET u == Top(st, R)
           l == Lanes(st, u)
       IN IF ~(l \subseteq st.staged) /\ (st.flush = {} \/ MinOf(st.flush) < MinOf(l))
          THEN IF st.flush = {} THEN Collect(st, def \cup {u}) ELSE st
          ELSE IF st.flush # {} /\ (1 \in l \/ (LevelOf(st, u) = 0 /\ \E v \in Range(st.batch) : st.k[v].tgt = st.k[u].tgt))
          THEN st
          ELSE LET s1 == [st EXCEPT !.flush = @ \cup l, !.batch = Append(@, u), !.q = @ \ {u}]
               IN IF 1 \in s1.flush THEN s1 ELSE Collect(s1, def)

SortByLevel(st, b) == SelectSeq(b, LAMBDA u : LevelOf(st, u) = 0) \o SelectSeq(b, LAMBDA u : LevelOf(st, u) = 1)
                        \o SelectSeq(b, LAMBDA u : LevelOf(st, u) = 2) \o SelectSeq(b, LAMBDA u : LevelOf(st, u) = 3)

RECURSIVE EvMws(_, _, _, _)
EvMws(st, name, u, i) == IF i > Len(st.mws) THEN st ELSE EvMws(Ev(st, [e |-> name, i |-> st.mws[i], u |-> u]), name, u, i + 1)
RECURSIVE EvOuts(_, _, _)
EvOuts(st, u, i) == IF i = 0 THEN st ELSE EvOuts(Ev(st, [e |-> "mwout", i |-> st.mws[i], u |-> u]), u, i - 1)
RECURSIVE EvMwc(_, _, _, _)
EvMwc(st, u, ms, i) == IF i > Len(ms) THEN st ELSE EvMwc(Ev(st, [e |-> "mwc", i |-> ms[i], u |-> u]), u, ms, i + 1)

\* Rendering; the result has "err" set when a render failed.
RECURSIVE Render(_, _)
Render(st, i) ==
  IF i > Len(st.batch) THEN [st |-> st, err |-> ""]
  ELSE LET u == st.batch[i]
           t == st.k[u].tgt
       IN IF IsComp(st, u) /\ ~st.unc[t] /\ st.mask[t] \cap Lanes(st, u) = {}
          THEN Render(st, i + 1)
          ELSE LET s1 == Ev(EvMws(st, "mwin", u, 1), [e |-> "render", u |-> u])
                   s2 == IF IsComp(st, u) THEN [s1 EXCEPT !.mask[t] = @ \ st.flush, !.unc[t] = TRUE] ELSE s1
                   s3 == IF st.k[u].sub = "r" /\ Len(s2.k) < MaxUp + 2 THEN DoSched(s2, SubKind) ELSE s2
                   s4 == EvOuts(s3, u, Len(s3.mws))
               IN IF st.k[u].fail = "r" THEN [st |-> s4, err |-> "e" \o ToString(u)]
                  ELSE Render([s4 EXCEPT !.ren = Append(@, <<u, s4.mws>>)], i + 1)

\* Committing; a commit that fails does not keep the others from being made. "err": the first error.
RECURSIVE Commit_(_, _, _)
Commit_(st, i, err) ==
  IF i > Len(st.ren) THEN [st |-> st, err |-> err]
  ELSE LET u == st.ren[i][1]
           s1 == EvMwc(st, u, st.ren[i][2], 1)
       IN IF st.k[u].fail = "c" THEN Commit_(Ev(s1, [e |-> "cfail", err |-> "e" \o ToString(u)]), i + 1, IF err = "" THEN "e" \o ToString(u) ELSE err)
          ELSE LET s2 == Ev(s1, [e |-> "commit", u |-> u])
                   s3 == IF IsComp(st, u) THEN [s2 EXCEPT !.unc[st.k[u].tgt] = FALSE] ELSE s2
                   s4 == IF st.k[u].sub = "c" /\ Len(s3.k) < MaxUp + 2 THEN DoSched(s3, SubKind) ELSE s3
               IN Commit_(s4, i + 1, err)
Commit(st, i) == Commit_(st, i, "")

Finish(st, err) ==
  [st EXCEPT !.sett = @ \o [i \in 1..Len(st.batch) |-> [e |-> "settle", u |-> st.batch[i], err |-> err]],
             !.batch = <<>>, !.flush = {}, !.ren = <<>>, !.wait = ""]

RECURSIVE RunCommit(_)
RECURSIVE Flush(_)
Flush(st) ==
  LET s1 == Collect(st, {}) IN
  IF s1.flush = {} THEN [s1 EXCEPT !.staged = {}]
  ELSE LET r == Render([s1 EXCEPT !.batch = SortByLevel(s1, @)], 1) IN
       IF r.err # "" THEN Flush(Finish(Ev(r.st, [e |-> "rfail", err |-> r.err]), r.err))
       ELSE IF r.st.ren = <<>> THEN Flush(Finish(r.st, ""))
       ELSE IF 0 \in r.st.flush
       THEN LET c == Commit(r.st, 1)
            IN Flush(Finish(c.st, c.err))
       ELSE LET via == IF 1 \in r.st.flush THEN "handler" ELSE "host"
                s2 == Ev([r.st EXCEPT !.wait = via], [e |-> "reqc", via |-> via])
            IN IF via = "handler" /\ s2.k[s2.batch[1]].hm = "now" THEN RunCommit(s2) ELSE s2

\* The host or the handler runs the commit; the loop resumes in a microtask.
RunCommit(st) ==
  LET s1 == Ev(st, [e |-> "runc", via |-> st.wait])
      c  == Commit(s1, 1)
      s3 == Ev(c.st, [e |-> "runcend"])
  IN [s3 EXCEPT !.wait = "resume", !.micro = Append(@, [k |-> "resume", err |-> c.err])]

FailCommit(st) ==
  LET s1 == Ev(st, [e |-> "failc", err |-> "f" \o ToString(st.batch[1])])
  IN [s1 EXCEPT !.wait = "resume", !.micro = Append(@, [k |-> "resume", err |-> "f" \o ToString(st.batch[1])])]

Callback(st, l) ==
  LET s1 == [st EXCEPT !.pend = @ \ {l}, !.staged = @ \cup l]
  IN IF s1.flush = {} THEN Flush(s1) ELSE s1

RECURSIVE EvAll(_, _, _)
EvAll(st, es, i) == IF i > Len(es) THEN st ELSE EvAll(Ev(st, es[i]), es, i + 1)

RECURSIVE Drain(_)
Drain(st) ==
  IF st.micro = <<>> THEN [EvAll([st EXCEPT !.sett = <<>>], st.sett, 1) EXCEPT !.sett = <<>>]
  ELSE LET m == Head(st.micro) s1 == [st EXCEPT !.micro = Tail(@)]
       IN Drain(IF m.k = "cb" THEN Callback(s1, m.l) ELSE Flush(Finish(s1, m.err)))

\* Stimuli.
Op(op) == script' = Append(script, op)
NUser(st) == Cardinality({u \in 1..Len(st.k) : st.k[u].tgt # "sub"})

Sched == \E k \in GenKinds : /\ NUser(s) < MaxUp
                             /\ s' = DoSched(s, k)
                             /\ Op([op |-> "sched", k |-> k])
Fire == \E i \in 1..Len(s.cbs) :
          /\ s' = Callback(Ev([s EXCEPT !.cbs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))],
                              [e |-> "fire", cb |-> s.cbs[i].id]), s.cbs[i].l)
          /\ Op([op |-> "fire", i |-> i - 1])
DoCommit == /\ s.wait \in {"host", "handler"}
            /\ s' = RunCommit(s)
            /\ Op([op |-> "commit"])
DoFail   == /\ s.wait \in {"host", "handler"}
            /\ s' = FailCommit(s)
            /\ Op([op |-> "failc"])
DoTick   == /\ s.micro # <<>> \/ s.sett # <<>>
            /\ s' = Ev(Drain(s), [e |-> "tick"])
            /\ Op([op |-> "tick"])
MwOps    == Len(SelectSeq(script, LAMBDA x : x.op \in {"mwadd", "mwdel"}))
AddMw    == MwOps < 4 /\ \E i \in Mws \ Range(s.mws) : /\ s' = Ev([s EXCEPT !.mws = Append(@, i)], [e |-> "mwadd", i |-> i])
                                          /\ Op([op |-> "mwadd", i |-> i])
DelMw    == MwOps < 4 /\ \E i \in Range(s.mws) : /\ s' = Ev([s EXCEPT !.mws = SelectSeq(@, LAMBDA x : x # i)], [e |-> "mwdel", i |-> i])
                                    /\ Op([op |-> "mwdel", i |-> i])

Quiet == s.cbs = <<>> /\ s.micro = <<>> /\ s.sett = <<>> /\ s.wait = "" /\ s.q = {}

Init == s = Init0 /\ script = <<>>
Next == /\ Len(script) < MaxOps
        /\ Sched \/ Fire \/ DoCommit \/ DoFail \/ DoTick \/ AddMw \/ DelMw

\* The design satisfies the monitor ...
DesignOK == s.mon.bad = {}
\* ... and leaves nothing behind.
Settled == Quiet => \A u \in 1..Len(s.k) : s.mon.up[u].st # "q"
NoStuck == s.q # {} /\ s.wait = "" /\ s.micro = <<>> => s.cbs # <<>>

View == s

\* Generating scripts: emit each behaviour of full length once.
Ended == script # <<>> /\ script[Len(script)].op = "end"
Emit == /\ ~Ended
        /\ Len(script) = MaxOps \/ (Quiet /\ NUser(s) = MaxUp)
        /\ PrintT("@@" \o ToJson(script))
        /\ script' = Append(script, [op |-> "end"])
        /\ s' = s
NextGen == (~Ended /\ Next) \/ Emit
=============================================================================
