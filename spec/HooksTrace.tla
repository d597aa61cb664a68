----------------------------- MODULE HooksTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of components with hooks: HooksMon for       *)
(* states (C05), dependencies and slots (C25), effects under concurrency   *)
(* (C03), identifiers (C24).                                               *)
(***************************************************************************)
EXTENDS HooksMon, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
Empty == [x \in {} |-> 0]
\* last: the last render per instance; com: the last committed one; renders by number; fx: effects with a cleanup u -> render;
\* rv: the kind of the reducer; may: the kinds that may have reduced an action; since: hooks with an action dispatched since the last render was requested.
\* ids: identifier -> owner <<u, slot>>; ups: open updates; rej: number of rejections; wrong: wrong renders.
Init0 == [mon |-> MonInit({}), last |-> Empty, ren |-> Empty, com |-> Empty, shown |-> Empty, fx |-> Empty, ids |-> Empty,
          tn |-> -1, un |-> -1, open |-> {}, nrej |-> 0, wrong |-> 0, gone |-> {}, owed |-> Empty, rv |-> Empty, may |-> Empty, since |-> {}]
Bad(mm, ok, prop, why) == IF ok THEN mm ELSE [mm EXCEPT !.mon.bad = @ \cup {<<prop, why>>}]
With(mm, hs) == [mm EXCEPT !.mon.acts = [h \in DOMAIN @ \cup hs |-> IF h \in DOMAIN @ THEN @[h] ELSE <<>>]]

\* Whether dependencies differ, element by element.
Differ(d, e) == d # e

OwnId(mm, u, slot, id) ==
  IF id = "" THEN mm
  ELSE Bad(IF Has(mm.ids, id) THEN mm ELSE [mm EXCEPT !.ids = Upd(@, id, <<u, slot>>)],
           (Has(mm.ids, id) => mm.ids[id] = <<u, slot>>)
           /\ \A x \in DOMAIN mm.ids : mm.ids[x] = <<u, slot>> => x = id, "C24", "an identifier changed or is used twice")

\* The transient actions that a render may apply: their lanes are among those of the open updates.
Live(mm, u) == LET L == UNION {x.ls : x \in mm.open} IN
  UNION {{mm.mon.acts[h][k].id : k \in {k \in 1..Len(mm.mon.acts[h]) : mm.mon.acts[h][k].ls \subseteq L}} : h \in {h \in DOMAIN mm.mon.acts : h[1] = u}}
\* What a render shows of a hook.
Of(x, h) == CASE h = "r" -> x.r [] h = "s" -> x.s [] OTHER -> x.p
Shows(mon, u, h, x) == MonShow(mon, <<u, h>>, Of(x, h), IF h = "p" THEN x.iv ELSE <<>>, x.live, h = "p")
OnRender(mm0, e) ==
  LET u == e.u
      fresh == ~Has(mm0.last, u)
      mm == With(mm0, {<<u, "r">>, <<u, "s">>, <<u, "p">>})
      p == IF fresh THEN e ELSE mm.last[u]
      wrong == e.ord # ""
      \* a slot that was reached now and before
      Same(a, b) == a = 0 \/ b = 0 \/ a = b
      Keep(a, b) == IF a = 0 THEN b ELSE a
      chg == Differ(p.deps, e.deps)
      m1 == Bad(mm, ~fresh /\ p.memo # 0 /\ e.memo # 0 => (e.memo = p.memo) = ~chg, "C25", "a memoized value is not recomputed exactly when its dependencies change")
      m3 == Bad(m1, ~fresh => Same(p.ref, e.ref) /\ Same(p.dr, e.dr) /\ Same(p.ds, e.ds), "C25", "a reference or a dispatch function is not kept")
      m4 == Bad(m3, e.refv = -1 \/ e.refv = (IF fresh THEN 0 ELSE p.refw), "C25", "the contents of a reference changed")
      m5 == OwnId(OwnId(m4, u, 1, e.id1), u, 2, e.id2)
      m6 == Bad(m5, ~wrong => e.err = "", "C25", "a render with its hooks in order failed")
      m7 == Bad(m6, e.ord \in {"swap", "more", "skip"} => e.err = "type", "C25", "hooks called in another order are not reported")
      m8 == Bad(m7, ~fresh \/ e.memo = 0 \/ \A x \in DOMAIN mm.last : mm.last[x].memo # e.memo /\ mm.last[x].ref # e.ref /\ mm.last[x].dr # e.dr /\ mm.last[x].ds # e.ds, "C25", "instances share a slot")
      now == [deps |-> IF e.memo = 0 THEN p.deps ELSE e.deps, ord |-> e.ord,
              cdeps |-> IF e.cb = 0 THEN (IF fresh THEN <<>> ELSE p.cdeps) ELSE e.deps,
              memo |-> Keep(e.memo, p.memo), cb |-> Keep(e.cb, p.cb), ref |-> Keep(e.ref, p.ref), dr |-> Keep(e.dr, p.dr), ds |-> Keep(e.ds, p.ds),
              refw |-> IF e.refv = -1 THEN (IF fresh THEN 0 ELSE p.refw) ELSE e.rn]
      m9 == Bad(m8, ~fresh /\ p.cb # 0 /\ e.cb # 0 => (e.cb = p.cb) = ~Differ(p.cdeps, e.deps), "C25", "a memoized callback is not replaced exactly when its dependencies change")
      mine == {x \in DOMAIN m9.may : m9.may[x].u = u}
      m10 == [m9 EXCEPT !.may = [x \in DOMAIN @ |-> IF x \in mine THEN [@[x] EXCEPT !.by = @ \cup {e.rv}] ELSE @[x]], !.rv = Upd(@, u, e.rv)]
      m11 == Bad(m10, \A y \in 1..Len(e.by) : e.by[y][1] \in mine => e.by[y][2] \in m10.may[e.by[y][1]].by, "C05", "an action was reduced by an outdated reducer")
      m12 == Bad(m11, e.ord = "boom" => e.err = "boom" /\ (chg \/ fresh), "C25", "a memoized value was computed again though its dependencies are the same")
  IN [m12 EXCEPT !.last = Upd(@, u, now),
                 !.ren = Upd(@, e.rn, [u |-> u, deps |-> e.deps, eff |-> e.eff, wrong |-> wrong, r |-> e.r, s |-> e.s, p |-> e.p, iv |-> e.iv, live |-> Live(mm, u)]),
                 !.wrong = @ + (IF wrong THEN 1 ELSE 0)]

\* A failed render comes to nothing (C23).
Unsettled(mm, us) == Bad(Bad(mm, \A u \in us : Has(mm.owed, u) => mm.owed[u] # "must", "C03", "an effect with changed dependencies did not run"),
                         mm.nrej = 0 \/ \A u \in us : Has(mm.owed, u) => mm.owed[u] # "must", "C23", "an effect was lost with a failed render")
Settled(mm, u) == Unsettled(mm, {u})
OnShown(mm, e) ==
  LET u == e.u
      x  == mm.ren[e.rn]
      m1 == Bad(mm, ~x.wrong, "C25", "a render with hooks out of order was committed")
      m2 == [m1 EXCEPT !.mon = Shows(Shows(Shows(@, u, "r", x), u, "s", x), u, "p", x)]
      m3 == Bad(m2, u \notin mm.gone, "C10", "a removed component was committed")
      m4 == Bad(m3, Has(mm.com, u) => e.rn > mm.com[u], "C09", "an older render was committed after a newer one")
      c  == IF Has(mm.com, u) THEN mm.ren[mm.com[u]] ELSE x
      \* whether the effect is to run: yes, no, or either after renders that were not committed
      must == ~Has(mm.com, u) \/ x.eff # "deps" \/ c.eff # "deps" \/ Differ(c.deps, x.deps)
      may  == \E rn \in DOMAIN mm.ren : mm.ren[rn].u = u /\ rn < e.rn /\ (~Has(mm.com, u) \/ rn > mm.com[u])
      m5 == Settled(m4, u)
  IN [m5 EXCEPT !.com = Upd(@, u, e.rn), !.owed = Upd(@, u, IF must THEN "must" ELSE IF may THEN "may" ELSE "no")]

OnIdle(mm) ==
  LET m1 == Bad(mm, mm.open = {}, "C07", "an update never settled")
      m2 == Bad(m1, mm.wrong = 0 \/ mm.nrej > 0, "C25", "hooks out of order were not reported by any update")
      m3 == Bad(m2, mm.wrong > 0 \/ mm.nrej = 0, "C06", "an update was rejected without any failure")
  IN Unsettled(m3, DOMAIN mm.owed)
\* In the end everything mounted shows all actions (those of rejected updates may be missing).
OnFinal(mm) ==
  LET us == {u \in DOMAIN mm.com : u \notin mm.gone}
      ok == \A u \in us : LET x == mm.ren[mm.com[u]] IN
              MonEnd(MonEnd([mm.mon EXCEPT !.bad = {}], <<u, "r">>, x.r, x.live), <<u, "s">>, x.s, x.live).bad = {}
      anew == \A u \in us : LET x == mm.ren[mm.com[u]] IN
              x.p = x.iv \/ <<u, "p">> \in mm.since \/ Transient(mm.mon.acts[<<u, "p">>]) # {}
  IN Bad(Bad(mm, mm.nrej > 0 \/ ok, "C05", "a settled state is not the fold of all actions"), mm.nrej > 0 \/ anew, "C05", "a state that starts anew in each render did not")

\* A finished action is shown.
OnFinish(mm, h, id) ==
  LET mon == MonFinish(mm.mon, h, id) u == h[1]
      a  == LET as == mon.acts[h] IN as[CHOOSE k \in 1..Len(as) : as[k].id = id]
      ok == u \in mm.gone \/ ~Has(mm.com, u)
            \/ IF a.tr \/ h[2] = "p" THEN a.seen \/ (h[2] = "p" /\ mm.nrej > 0) ELSE Shows(mon, u, h[2], mm.ren[mm.com[u]]).bad = mon.bad
  IN Bad(Bad([mm EXCEPT !.mon = mon], ok, "C05", "a state shown lacks a finished action"), ok, "C06", "an update settled before it was shown")
MonStep(mm, e) ==
  CASE e.e = "r"     -> OnRender(mm, e)
    [] e.e = "shown" -> OnShown(mm, e)
    [] e.e = "gone"  -> Bad([mm EXCEPT !.gone = @ \cup {e.u}], e.u \notin mm.gone, "C03", "a cleanup ran twice")
    [] e.e = "disp"  -> LET h == <<e.u, e.h>> mm1 == With(mm, {h})
                        IN IF e.gone THEN mm1 ELSE [mm1 EXCEPT !.mon = MonDispatch(@, h, [id |-> e.id, op |-> e.op, v |-> e.v, tr |-> e.tr, ls |-> Range(e.ls)], e.drop, e.eq, e.cur, e.h = "p"),
                                           !.since = @ \cup {h},
                                           !.may = IF e.h = "r" /\ e.op = "app" /\ Has(mm.rv, e.u) THEN Upd(@, e.v, [u |-> e.u, by |-> {mm.rv[e.u]}]) ELSE @]
    [] e.e = "req"   -> Bad([mm EXCEPT !.open = @ \cup {[n |-> e.n, ls |-> Range(e.ls)]}, !.un = e.id], e.id > mm.un, "C24", "update ids do not increase")
    [] e.e = "fin"   -> LET hs == {h \in DOMAIN mm.mon.acts : \E k \in 1..Len(mm.mon.acts[h]) : mm.mon.acts[h][k].id = e.id}
                            m1 == [mm EXCEPT !.open = {x \in @ : x.n # e.n}, !.nrej = @ + (IF e.ok THEN 0 ELSE 1)]
                        IN IF e.ok /\ hs # {} THEN OnFinish(m1, CHOOSE h \in hs : TRUE, e.id) ELSE m1
    [] e.e = "trans" -> Bad([mm EXCEPT !.tn = e.n], e.n > mm.tn, "C24", "transition numbers repeat")
    [] e.e = "id"    -> Bad(OwnId(mm, -1 - Cardinality(DOMAIN mm.ids), 0, e.id), e.valid, "C24", "an identifier is not valid")
    [] e.e = "fx"    ->
         LET u == e.u d == mm.ren[e.rn] IN
         IF e.t = "c"
         THEN Bad([mm EXCEPT !.fx = [x \in DOMAIN @ \ {u} |-> @[x]]], Has(mm.fx, u) /\ mm.fx[u] = e.rn, "C03", "a cleanup ran without its setup")
         ELSE Bad(Bad([mm EXCEPT !.fx = IF e.cl THEN Upd(@, u, e.rn) ELSE @, !.owed = Upd(@, u, "no")], ~Has(mm.fx, u) /\ u \notin mm.gone, "C03", "an effect was set up again before its cleanup"),
                  Has(mm.owed, u) /\ mm.owed[u] # "no" /\ mm.com[u] = e.rn, "C03", "an effect ran though its dependencies are the same")
    [] e.e = "idle"  -> OnIdle(mm)
    [] e.e = "last"  -> [mm EXCEPT !.since = {}]
    [] e.e = "final" -> OnFinal(mm)
    [] e.e = "end"   -> Bad(mm, DOMAIN mm.fx = {} /\ DOMAIN mm.com \subseteq mm.gone, "C03", "effects of removed components were not cleaned up")
    [] OTHER         -> Bad(mm, FALSE, "ALL", "unexpected event " \o e.e)

Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = Init0
Next == /\ i < Len(Traces[tr].ev) /\ m.mon.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.mon.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
