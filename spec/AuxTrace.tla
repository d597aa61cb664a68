------------------------------ MODULE AuxTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of components with the auxiliary hooks (C18):*)
(* deferred values, transitions, event callbacks, imperative handles.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Has(f, k) == k \in DOMAIN f
Range(s) == {s[k] : k \in 1..Len(s)}
\* cbs: how many host callbacks had run when last idle, until when everything is synchronous; ren: renders; com: the committed render of each live instance; had: the sources an instance was rendered with;
\* han: the handle of each live instance [ref, deps, nodeps, rn]; sh: who was the last to set the reference shared by all, in which render; fset: function references with a handle to withdraw;
\* trs: transitions id -> [u, acts, ended, at (event), seen]; lastp: the render with pending shown last, per instance.
MInit == [ren |-> Empty, com |-> Empty, had |-> Empty, han |-> Empty, fexp |-> {}, trs |-> Empty, acts |-> Empty, mine |-> Empty, gone |-> {}, ks |-> <<>>, sh |-> <<0, 0>>, cbs |-> 0, n |-> 0, owed |-> {}, bad |-> {}]
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C18", why>>}]
Get(f, k, d) == IF Has(f, k) THEN f[k] ELSE d

OnRender(mm, e) ==
  LET u == e.u
      had == Get(mm.had, u, {}) \cup {e.src}
      fresh == ~Has(mm.had, u)
      m1 == Bad(mm, u \notin mm.gone, "a removed component rendered")
      m2 == Bad(m1, IF fresh THEN e.def \in {1, 2, 3, 4, e.src} ELSE e.def \in had \cup (1..4), "a deferred value its source never had")
      last == IF Has(mm.com, u) THEN mm.ren[mm.com[u]] ELSE e
      m3 == Bad(m2, e.def >= last.def, "a deferred value goes back")
      m3b == Bad(m3, e.def > last.def => mm.cbs < e.cbs, "a deferred value does not follow in an update of its own")
      \* pending is withdrawn: the transitions it was shown for have ended, and their updates are included
      P == {t \in DOMAIN mm.trs : mm.trs[t].u = u /\ mm.trs[t].at < last.at}
      \* Only of the latest transition can more be said than that it has ended: earlier ones share what is pending with it.
      Q == {t \in P : \A t2 \in DOMAIN mm.trs : mm.trs[t2].u = u => t2 <= t}
      drop == Has(mm.com, u) /\ last.pending /\ ~e.pending
      m4 == Bad(m3b, drop => \A t \in P : mm.trs[t].ended, "a transition is no longer pending though it has not ended")
      m5 == Bad(m4, drop => \A t \in Q : \A a \in mm.trs[t].acts : a[1] = u => a[2] \in Range(e.s), "a transition is no longer pending before its updates are shown")
  IN [m5 EXCEPT !.had = Upd(@, u, had),
                !.ren = Upd(@, e.rn, [u |-> u, src |-> e.src, def |-> e.def, pending |-> e.pending, s |-> e.s, fn |-> e.fn, ref |-> e.ref, deps |-> e.deps, nodeps |-> e.nodeps, at |-> mm.n,
                                      owed |-> IF drop THEN UNION {{a \in mm.trs[t].acts : a[1] # u} : t \in Q} ELSE {}])]

Handle(mm, u) == Get(mm.han, u, [ref |-> "", rn |-> 0])
OnShown(mm, e) ==
  LET u == e.u x == mm.ren[e.rn]
      h == Handle(mm, u)
      same == Has(mm.com, u) /\ Has(mm.han, u) /\ ~x.nodeps /\ ~h.nodeps /\ x.deps = h.deps /\ x.ref = h.ref
      \* the handle held from now on
      now == IF same THEN h ELSE [ref |-> x.ref, deps |-> x.deps, nodeps |-> x.nodeps, rn |-> e.rn]
      At(r) == IF now.ref = r THEN now.rn ELSE 0
      m1 == Bad(mm, e.A = At("A") /\ e.B = At("B"), "a reference does not hold the latest handle")
      \* calls of function references still expected to have happened
      want == IF same THEN {} ELSE (IF x.ref \in {"F", "G"} THEN {<<"fset", u, x.ref, e.rn>>} ELSE {}) \cup (IF h.ref = "G" THEN {<<"funset", u, "G", h.rn>>} ELSE {})
      m2 == Bad(m1, {f \in mm.fexp : f[2] = u} = want, "a function reference was not called exactly for the new handle")
      pend == {t \in DOMAIN mm.trs : mm.trs[t].u = u /\ mm.trs[t].at < x.at}
  IN [m2 EXCEPT !.han = Upd(@, u, now), !.sh = IF ~same /\ x.ref = "S" THEN <<u, e.rn>> ELSE @,
                !.com = Upd(@, u, e.rn), !.fexp = {f \in @ : f[2] # u},
                !.trs = [t \in DOMAIN @ |-> IF t \in pend /\ x.pending THEN [@[t] EXCEPT !.seen = TRUE] ELSE @[t]],
                !.owed = @ \cup x.owed]
OnGone(mm, e) ==
  LET h == Handle(mm, e.u)
      m1 == Bad(mm, e.A = 0 /\ e.B = 0, "a reference is not withdrawn on removal")
      m2 == Bad(m1, {f \in mm.fexp : f[2] = e.u} = (IF h.ref = "G" THEN {<<"funset", e.u, "G", h.rn>>} ELSE {}), "a function reference is not withdrawn on removal")
  IN [m2 EXCEPT !.com = [u \in DOMAIN @ \ {e.u} |-> @[u]], !.gone = @ \cup {e.u}, !.fexp = {f \in @ : f[2] # e.u}]
Live(mm) == DOMAIN mm.com
Shown(mm, u) == mm.ren[mm.com[u]]
\* Ended and all shown already.
Over(mm, t) == LET r == mm.trs[t] IN r.ended /\ ~Shown(mm, r.u).pending /\ Shown(mm, r.u).at > r.at /\ \A a \in r.acts : a[1] # r.u \/ a[2] \in Range(Shown(mm, r.u).s)
\* Pending is shown at once, unless a commit was awaited.
OnTick(mm, e) ==
  LET m1 == Bad(mm, e.busy \/ \A t \in DOMAIN mm.trs : mm.trs[t].u \notin Live(mm) \/ mm.trs[t].seen \/ Over(mm, t), "a transition is not shown as pending at once")
      m2 == Bad(m1, \A a \in mm.owed : a[1] \notin Live(mm) \/ a[2] \in Range(Shown(mm, a[1]).s), "a transition is no longer pending before its updates elsewhere are shown")
  IN [m2 EXCEPT !.owed = {}]
OnIdle(mm, e) ==
  LET m0 == OnTick(mm, [busy |-> FALSE])
      m1 == Bad(m0, \A u \in Live(mm) : Shown(mm, u).def = Shown(mm, u).src, "a deferred value did not catch up with its source")
      m2 == Bad(m1, \A u \in Live(mm) : Shown(mm, u).pending = (\E t \in DOMAIN mm.trs : mm.trs[t].u = u /\ ~mm.trs[t].ended), "pending is not shown as it is")
      m3 == Bad(m2, \A u \in Live(mm) : Shown(mm, u).s = Get(mm.acts, u, <<>>), "the updates of a transition are not shown")
      m4 == Bad(m3, e.last => \A t \in DOMAIN mm.trs : mm.trs[t].ended, "a transition does not end")
      m5 == Bad(m4, Len(e.dom) = Len(mm.ks) /\ Cardinality(Live(mm)) = Len(mm.ks), "not the components that were rendered")
      m6 == Bad(m5, mm.fexp = {}, "a function reference was called without need")
      \* The shared reference holds the handle of the last that set it, if it still does; if nobody does, nothing.
      using == {u \in Live(mm) : Handle(mm, u).ref = "S"}
      m7 == Bad(m6, using = {} => e.S = 0, "a shared reference is not withdrawn")
      m8 == Bad(m7, mm.sh[1] \in using /\ Handle(mm, mm.sh[1]).rn = mm.sh[2] => e.S = mm.sh[2], "a shared reference does not hold the latest handle")
  IN [m8 EXCEPT !.cbs = e.cbs]
MonStep(mm0, e) ==
  LET mm == [mm0 EXCEPT !.n = @ + 1] IN
  CASE e.e = "list"  -> [mm EXCEPT !.ks = e.ks]
    [] e.e = "r"     -> OnRender(mm, e)
    [] e.e = "shown" -> OnShown(mm, e)
    [] e.e = "gone"  -> OnGone(mm, e)
    [] e.e \in {"fset", "funset"} -> Bad([mm EXCEPT !.fexp = @ \cup {<<e.e, e.u, e.f, e.rn>>}], <<e.e, e.u, e.f, e.rn>> \notin mm.fexp, "a function reference was called twice")
    [] e.e = "call"  -> Bad(mm, e.ok /\ \A k \in 1..3 : e.got[k] = Shown(mm, e.u).fn, "an event callback does not run the function of the latest committed render")
    [] e.e = "start" -> [mm EXCEPT !.trs = Upd(@, e.id, [u |-> e.u, acts |-> {}, ended |-> FALSE, at |-> mm.n, seen |-> e.u \in mm.gone])]
    [] e.e = "inc"   -> [mm EXCEPT !.trs[e.id].acts = @ \cup {<<e.u, e.a>>}, !.acts = Upd(@, e.u, Append(Get(@, e.u, <<>>), e.a))]
    [] e.e = "ended" -> Bad([mm EXCEPT !.trs[e.id].ended = TRUE], e.ok, "the outcome of a transition did not reach its caller")
    [] e.e = "tick"  -> OnTick(mm, e)
    [] e.e = "idle"  -> OnIdle(mm, e)
    [] OTHER         -> [mm EXCEPT !.bad = @ \cup {<<"ALL", "unexpected event " \o e.e>>}]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
