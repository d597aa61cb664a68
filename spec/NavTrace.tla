------------------------------ MODULE NavTrace ------------------------------
(***************************************************************************)
(* Judges recorded navigations (C20): who gets which navigation, with what *)
(* target; when navigating is over; what synchronized components show.     *)
(* Adapters: 1 browser, 2 hash, 3 in memory.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Has(f, k) == k \in DOMAIN f
Scene(e) == [url |-> e.url, state |-> e.state, type |-> e.type]
\* lis: listeners i -> adapter; ev: the navigation in progress; due: listeners that are to get it; hand: handlers running <<i, n>>; failed: failed navigations;
\* com: synchronized components u -> [ad, how, scene, want, n (the last navigation it was told of)]; nav: navigations through adapters not over; loc: the location of the memory; cur: its navigation in progress; web: the location of the browser.
MInit == [lis |-> Empty, ev |-> <<>>, due |-> {}, asked |-> {}, hand |-> {}, failed |-> {}, com |-> Empty, icpt |-> [manual |-> 0, after |-> 0], ren |-> Empty, nav |-> {}, cmd |-> <<>>,
          loc |-> [url |-> "/m", state |-> "m0"], cur |-> <<>>, web |-> [path |-> "/a?q#h", frag |-> "h", state |-> "s0"], bad |-> {}]
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C20", why>>}]
\* Whether a navigation concerns an adapter.
Concerns(e, ad) == IF e.by = "mem" THEN ad = 3 ELSE e.can /\ e.same /\ ~e.dl /\ (IF e.hash THEN ad = 2 ELSE ad = 1)
Target(e, ad) == IF ad = 2 THEN e.frag ELSE e.path
TypeOf(mm, e) == IF e.type = "auto" THEN (IF e.path = mm.loc.url THEN "replace" ELSE "push") ELSE e.type
SceneFor(mm, e, ad) == [url |-> Target(e, ad), state |-> e.state, type |-> TypeOf(mm, e)]
OnEvt(mm, e) ==
  LET us == {u \in DOMAIN mm.com : Concerns(e, mm.com[u].ad)}
      n(how) == Cardinality({u \in us : mm.com[u].how \in how})
  IN [mm EXCEPT !.ev = <<e>>, !.icpt = [manual |-> n({"own", "scroll"}), after |-> n({"", "skip"})],
                !.nav = IF mm.cmd # <<>> THEN @ \cup {e.n} ELSE @, !.cmd = IF e.by = "mem" THEN <<>> ELSE @, !.due = {l \in DOMAIN mm.lis : Concerns(e, mm.lis[l])},
                !.asked = {u \in us : mm.com[u].how # ""},
                !.com = [u \in DOMAIN @ |-> IF u \in us /\ @[u].how # "skip" THEN [@[u] EXCEPT !.want = SceneFor(mm, e, mm.com[u].ad), !.n = e.n] ELSE @[u]]]
OnEvtEnd(mm) ==
  LET e == mm.ev[1]
      m1 == Bad(mm, mm.due = {}, "a navigation was not delivered")
      m2 == Bad(m1, mm.asked = {}, "a component was not told of a navigation")
      m3 == Bad(m2, e.by = "web" => mm.icpt = [manual |-> 0, after |-> 0], "a navigation was not intercepted once by each, as told")
  IN [m3 EXCEPT !.ev = <<>>, !.cmd = <<>>, !.cur = IF e.by = "mem" THEN <<e>> ELSE @, !.web = IF e.by = "web" /\ e.can /\ e.same /\ ~e.dl THEN [path |-> e.path, frag |-> e.frag, state |-> e.state] ELSE @]
OnDeliver(mm, e) ==
  LET m1 == Bad(mm, mm.ev # <<>> /\ e.i \in mm.due, "a navigation was delivered to a listener it does not concern, or twice")
      m2 == Bad(m1, mm.ev # <<>> /\ e.i \in mm.due => Scene(e) = SceneFor(mm, mm.ev[1], mm.lis[e.i]), "a navigation was delivered with another target")
  IN [m2 EXCEPT !.due = @ \ {e.i}, !.icpt.manual = @ + (IF e.go THEN 1 ELSE 0)]
OnAsk(mm, e) ==
  LET m1 == Bad(mm, e.u \in mm.asked, "a component was told of a navigation that does not concern it, or twice")
      m2 == Bad(m1, e.u \in mm.asked => Scene(e) = SceneFor(mm, mm.ev[1], mm.com[e.u].ad) /\ e.how = mm.com[e.u].how, "a component was told of another target")
  IN [m2 EXCEPT !.asked = @ \ {e.u}]
OnRender(mm, e) ==
  LET fresh == ~Has(mm.ren, e.u)
      want == IF fresh THEN [url |-> e.at[1], state |-> e.at[2], type |-> "null"] ELSE Scene(e)
      m1 == Bad(mm, Scene(e) = want, "a component does not start with the current location")
      m2 == Bad(m1, e.is = e.ad, "a component is given another adapter")
  IN [m2 EXCEPT !.ren = Upd(@, e.u, e)]
OnShown(mm, e) ==
  LET old == IF Has(mm.com, e.u) THEN mm.com[e.u] ELSE [want |-> Scene(e), n |-> 0]
  IN [mm EXCEPT !.com = Upd(@, e.u, [ad |-> e.ad, how |-> e.how, scene |-> Scene(e), want |-> old.want, n |-> old.n])]
\* Navigating is over.
OnDone(mm, e) ==
  LET m1 == Bad(mm, e.ok /\ e.n \notin mm.failed, "navigating succeeded though a handler failed")
      m2 == Bad(m1, \A h \in mm.hand : h[2] # e.n, "navigating is over before all handlers have finished")
      m3 == Bad(m2, \A u \in DOMAIN mm.com : mm.com[u].n = e.n => mm.com[u].scene = mm.com[u].want, "navigating is over before a component shows it")
  IN [m3 EXCEPT !.nav = @ \ {e.n}, !.loc = IF e.ad = 3 THEN [url |-> mm.cur[1].path, state |-> mm.cur[1].state] ELSE @, !.cur = IF e.ad = 3 THEN <<>> ELSE @]
OnWhere(mm, e) ==
  LET loc == IF e.ad = 3 THEN mm.loc ELSE [url |-> IF e.ad = 1 THEN mm.web.path ELSE mm.web.frag, state |-> mm.web.state]
  IN Bad(mm, (e.ad = 3 /\ mm.cur # <<>>) \/ [url |-> e.url, state |-> e.state] = loc, "the current location is not that of the last navigation")
OnIdle(mm, e) ==
  LET n(ad) == Cardinality({l \in DOMAIN mm.lis : mm.lis[l] = ad}) + Cardinality({u \in DOMAIN mm.com : mm.com[u].ad = ad})
      m1 == Bad(mm, \A ad \in 1..3 : e.count[ad] = n(ad), "not exactly those who want to listen do")
      m2 == Bad(m1, e.web = n(1) + n(2), "listeners are left behind in the browser")
      m3 == Bad(m2, \A u \in DOMAIN mm.com : mm.com[u].scene = mm.com[u].want, "a component does not show the last navigation")
      m4 == Bad(m3, \A u \in DOMAIN mm.com : Has(mm.ren, -u) /\ Scene(mm.ren[-u]) = mm.com[u].scene /\ mm.ren[-u].ad = mm.com[u].ad, "a descendant is not provided with the navigation")
      m5 == Bad(m4, e.waits = 0 => mm.nav = {}, "navigating is not over though all handlers have finished")
  IN m5
MonStep(mm, e) ==
  CASE e.e = "listen"  -> [mm EXCEPT !.lis = Upd(@, e.i, e.ad)]
    [] e.e = "quit"    -> [mm EXCEPT !.lis = [l \in DOMAIN @ \ {e.i} |-> @[l]], !.due = @ \ {e.i}]
    [] e.e = "evt"     -> OnEvt(mm, e)
    [] e.e = "evtend"  -> OnEvtEnd(mm)
    [] e.e = "deliver" -> OnDeliver(mm, e)
    [] e.e = "ask"     -> OnAsk(mm, e)
    [] e.e = "icpt"    -> [mm EXCEPT !.icpt[e.scroll] = @ - 1]
    [] e.e = "hbeg"    -> [mm EXCEPT !.hand = @ \cup {<<e.i, e.n>>}]
    [] e.e = "hend"    -> [mm EXCEPT !.hand = @ \ {<<e.i, e.n>>}, !.failed = IF e.ok THEN @ ELSE @ \cup {e.n}]
    [] e.e = "nav"     -> Bad([mm EXCEPT !.cmd = <<e>>], mm.cmd = <<>>, "the browser was not told to navigate")
    [] e.e = "navcall" -> Bad(mm, mm.cmd # <<>> /\ e.url = (IF mm.cmd[1].ad = 2 THEN "#" \o mm.cmd[1].url ELSE mm.cmd[1].url) /\ <<e.state, e.history, e.extra>> = <<mm.cmd[1].state, mm.cmd[1].history, mm.cmd[1].extra>>,
                              "the browser was told to navigate elsewhere")
    [] e.e = "navdone" -> OnDone(mm, e)
    [] e.e = "navfail" -> Bad([mm EXCEPT !.nav = @ \ {e.n}, !.cur = IF e.ad = 3 THEN <<>> ELSE @], e.n \in mm.failed, "navigating failed though no handler did")
    [] e.e = "where"   -> OnWhere(mm, e)
    [] e.e = "inner"   -> [mm EXCEPT !.ren = Upd(@, -e.u, e)]
    [] e.e = "r"       -> OnRender(mm, e)
    [] e.e = "shown"   -> OnShown(mm, e)
    [] e.e = "gone"    -> [mm EXCEPT !.com = [u \in DOMAIN @ \ {e.u} |-> @[u]]]
    [] e.e = "idle"    -> OnIdle(mm, e)
    [] OTHER           -> [mm EXCEPT !.bad = @ \cup {<<"ALL", "unexpected event " \o e.e>>}]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
