----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Judges recorded concurrent updates (C09, C10, C03): whatever happened,  *)
(* when nothing is left to do the DOM is the one of the last root values   *)
(* and of the states that all actions lead to; instances in it are those   *)
(* whose effects are set up; removed ones stay silent.                     *)
(* Troubled executions (C23, C26), in which renders or effects throw now   *)
(* and then: updates fail of nothing else, and all settle. Effects that    *)
(* throw take nothing from what is shown; after renders that threw, all    *)
(* that is shown fits together once everything is rendered again.          *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
\* acts: actions per instance; fx: effects set up <<u, i>>; dead: removed instances; open: open updates; du: x-a nodes of instances
Init0 == [root |-> <<<<>>, <<>>>>, acts |-> Empty, fx |-> {}, dead |-> {}, open |-> {}, du |-> {}, used |-> {}, trouble |-> "", bad |-> {}]
Bad(mm, ok, prop, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<IF mm.trouble # "" /\ prop # "ALL" THEN mm.trouble ELSE prop, why>>}]

RECURSIVE Fold(_, _)
Fold(s, as) == IF as = <<>> THEN s ELSE Fold(CASE Head(as).a = "inc" -> s + 1 [] Head(as).a = "set" -> Head(as).v [] OTHER -> s, Tail(as))
StateOf(mm, u) == IF u \in DOMAIN mm.acts THEN Fold(0, mm.acts[u]) ELSE 0
\* The tree of a description with states by label.
\* Tainted are those below elements that may be left as they are, with what was provided then.
RECURSIVE GrownIn(_, _, _, _)
GrownIn(d, st, env, old) ==
  LET o == old \/ d.cache \/ d.name = "M" IN
  [N(d, d.l, IF d.k = "c" THEN <<GrownIn(Alt(d, IF d.l \in DOMAIN st THEN st[d.l] ELSE 0), st, Append(env, d.prov), o)>>
             ELSE [j \in 1..Len(d.h) |-> GrownIn(d.h[j], st, env, o)], 0) EXCEPT !.env = env, !.taint = o]
Grown(d, st) == GrownIn(d, st, <<>>, FALSE)
HR == [d |-> 0, t |-> "hr"]
Shape(s) == [j \in 1..Len(s) |-> [d |-> s[j].d, t |-> s[j].t]]

OnQuiet(mm, e) ==
  LET lv == e.live
      byl == [l \in {lv[j].l : j \in 1..Len(lv)} |-> LET S == {j \in 1..Len(lv) : lv[j].l = l} IN lv[CHOOSE j \in S : TRUE].u]
      once == Cardinality(DOMAIN byl) = Len(lv)
      \* which actions survive failed renders is left open
      st == [l \in DOMAIN byl |-> IF mm.trouble # "C23" THEN StateOf(mm, byl[l]) ELSE (CHOOSE x \in Range(lv) : x.l = l).s]
      t(r) == IF mm.root[r] = <<>> THEN None ELSE Grown(mm.root[r][1], st)
      t1 == t(1) t2 == t(2)
      want == [main |-> <<HR>> \o Shape(MainDom(t1)), P1 |-> <<HR>> \o Shape(PDom(t1, "P1")), P2 |-> Shape(PDom(t1, "P2")), two |-> Shape(MainDom(t2))]
      comps == {x.d.l : x \in Range(Comps(t1)) \cup Range(Comps(t2))}
      cs == {"main", "P1", "P2", "two"}
      xa == UNION {{<<e.dom[c][j].c, e.dom[c][j].u>> : j \in {j \in 1..Len(e.dom[c]) : e.dom[c][j].c # 0}} : c \in cs}
      xs == mm.du \cup xa
      m1 == Bad(mm, mm.open = {}, "C07", "an update never settled")
      m2 == Bad(m1, \A c \in cs : Shape(e.dom[c]) = want[c], "C09", "the DOM is not that of the last root value and states")
      m3 == Bad(m2, once /\ comps = DOMAIN byl, "C09", "the live components are not those of the tree")
      m4 == Bad(m3, mm.trouble = "C23" \/ \A j \in 1..Len(lv) : lv[j].s = StateOf(mm, lv[j].u), "C09", "a component does not show all actions")
      m5 == Bad(m4, \A p \in xs : \A q \in xs : (p[1] = q[1]) = (p[2] = q[2]), "C02", "an instance changed its DOM node")
      m6 == Bad(m5, \A x \in Range(Comps(t1)) \cup Range(Comps(t2)) : ~x.taint =>
                      \A j \in {j \in 1..Len(lv) : lv[j].l = x.d.l} : lv[j].inj = <<Inject(x, "K1"), Inject(x, "K2"), Inject(x, "K3")>>,
                "C11", "not the nearest provider was found")
  IN IF e.calm \/ mm.trouble = "C26" THEN [m6 EXCEPT !.du = xs] ELSE m1

MonStep(mm, e) ==
  CASE e.e = "trouble" -> [mm EXCEPT !.trouble = e.p]
    [] e.e = "root"  -> [mm EXCEPT !.root[e.r] = e.d]
    [] e.e = "req"   -> [mm EXCEPT !.open = @ \cup {e.n}]
    [] e.e = "act"   -> Bad([mm EXCEPT !.acts = Upd(@, e.u, Append(IF e.u \in DOMAIN @ THEN @[e.u] ELSE <<>>, [a |-> e.a, v |-> e.v]))],
                            mm.trouble = "C23" \/ ~e.drop \/ StateOf(mm, e.u) = Fold(StateOf(mm, e.u), <<[a |-> e.a, v |-> e.v]>>) \/ e.u \in mm.dead, "C09", "an action was dropped")
    [] e.e = "fin"   -> Bad(Bad([mm EXCEPT !.open = @ \ {e.n}], e.ok \/ ~e.dead \/ mm.trouble # "", "C10", "an update of a removed component failed"),
                            e.ok \/ (mm.trouble # "" /\ e.msg = "boom"), "C09", "an update failed")
    [] e.e = "rend"  -> Bad(mm, e.u \notin mm.dead, "C10", "a removed component was rendered")
    [] e.e = "fx"    ->
         LET k == <<e.u, e.i>> IN
         IF e.t = "s"
         THEN Bad(Bad([mm EXCEPT !.fx = @ \cup {k}], k \notin mm.fx, "C03", "an effect was set up again before its cleanup"),
                  e.u \notin mm.dead, "C10", "an effect of a removed component was set up")
         ELSE Bad([mm EXCEPT !.fx = @ \ {k}, !.dead = IF e.i = 1 THEN @ \cup {e.u} ELSE @], k \in mm.fx, "C03", "a cleanup ran without its setup")
    [] e.e = "quiet" -> Bad(OnQuiet(mm, e), ~e.calm \/ {k[1] : k \in mm.fx} = {e.live[j].u : j \in 1..Len(e.live)}, "C03", "effects of removed components were not cleaned up")
    [] OTHER         -> Bad(mm, FALSE, "ALL", "unexpected event " \o e.e)

Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = Init0
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
