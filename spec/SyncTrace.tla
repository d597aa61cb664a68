----------------------------- MODULE SyncTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of components that use signals and stores    *)
(* (C17): once idle each shows the current value; none renders without     *)
(* cause, or once removed; and nobody listens for what is not there.       *)
(***************************************************************************)
EXTENDS Sync, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
\* val: the base values; own: the values of instances' own atoms; list: the list rendered last; com: shown instances u -> [kind, src, val]; used: what each instance used since the last idle;
\* cause: instances with a reason to render; all: a list was requested since the last idle.
MInit == [val |-> [x \in Bases |-> 0], own |-> Empty, list |-> <<>>, com |-> Empty, used |-> Empty, cause |-> {}, all |-> FALSE, gone |-> {}, bad |-> {}]
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C17", why>>}]
OnChange(mm, e) ==
  LET x == [mm.val EXCEPT ![e.b] = e.v]
      hit == {u \in DOMAIN mm.used : \E us \in mm.used[u] : us[1] \notin {"child", "own"} /\ Val(x, us[1], us[2]) # Val(mm.val, us[1], us[2])}
  IN [mm EXCEPT !.val = x, !.cause = @ \cup hit]
\* What instance u shows.
Now(mm, u, kind, src) == IF kind = "own" THEN mm.own[u] ELSE Val(mm.val, kind, src)
\* An atom of its own is made with the component, once.
OnOwn(mm, e) ==
  IF e.mk THEN Bad([mm EXCEPT !.own = Upd(@, e.u, e.v)], e.u \notin DOMAIN mm.own, "a component lost its atom")
  ELSE [mm EXCEPT !.own[e.u] = e.v, !.cause = IF e.v = mm.own[e.u] THEN @ ELSE @ \cup {e.u}]
OnRender(mm, e) ==
  LET m1 == Bad(mm, mm.all \/ e.u \in mm.cause, "a component rendered though nothing it uses changed")
      m2 == Bad(m1, e.u \notin mm.gone, "a removed component rendered")
  IN [m2 EXCEPT !.used = Upd(@, e.u, (IF e.u \in DOMAIN @ THEN @[e.u] ELSE {}) \cup {<<e.kind, e.src>>})]
RECURSIVE Total(_, _, _)
Total(mm, base, us) == IF us = {} THEN 0 ELSE LET u == CHOOSE u \in us : TRUE IN
  (CASE mm.com[u].kind = "child" -> 2 [] mm.com[u].kind = "own" -> 0 [] OTHER -> 1) * Uses(mm.com[u].src, base) + Total(mm, base, us \ {u})
OnIdle(mm, e) ==
  LET n == Len(mm.list)
      who(k) == CHOOSE u \in DOMAIN mm.com : mm.com[u].k = k
      here(k) == \E u \in DOMAIN mm.com : mm.com[u].k = k
      now == [k \in 1..n |-> IF here(mm.list[k].k) THEN ToString(Now(mm, who(mm.list[k].k), mm.list[k].kind, mm.list[k].src)) ELSE "?"]
      m1 == Bad(mm, \A u \in DOMAIN mm.com : mm.com[u].kind = "child" \/ mm.com[u].val = Now(mm, u, mm.com[u].kind, mm.com[u].src), "a component did not catch up with what it uses")
      m2 == Bad(m1, Len(e.dom) = n /\ \A k \in 1..n : e.dom[k] = <<now[k], now[k]>>, "the DOM does not show the current values")
      m3 == Bad(m2, \A k \in 1..Len(e.subs) : e.subs[k][2] <= Total(mm, e.subs[k][1], DOMAIN mm.com), "somebody still listens who is not there")
  IN [m3 EXCEPT !.cause = {}, !.all = FALSE, !.used = [u \in DOMAIN mm.com |-> {<<mm.com[u].kind, mm.com[u].src>>}]]
MonStep(mm, e) ==
  CASE e.e = "chg"   -> OnChange(mm, e)
    [] e.e = "own"   -> OnOwn(mm, e)
    [] e.e = "list"  -> [mm EXCEPT !.list = e.list, !.all = TRUE]
    [] e.e = "force" -> [mm EXCEPT !.cause = @ \cup {e.u}]
    [] e.e = "r"     -> OnRender(mm, e)
    [] e.e = "shown" -> Bad([mm EXCEPT !.com = Upd(@, e.u, [k |-> e.k, kind |-> e.kind, src |-> e.src, val |-> e.val])], e.u \notin mm.gone, "a removed component was shown")
    [] e.e = "gone"  -> [mm EXCEPT !.com = [u \in DOMAIN @ \ {e.u} |-> @[u]], !.gone = @ \cup {e.u}]
    [] e.e = "idle"  -> OnIdle(mm, e)
    [] OTHER         -> [mm EXCEPT !.bad = @ \cup {<<"ALL", "unexpected event " \o e.e>>}]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
