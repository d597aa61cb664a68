----------------------------- MODULE TreeTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of scripts of renders against Tree.          *)
(* Each event e is an operation with everything observed once it settled:  *)
(*  e.dom.main/P1/P2: nodes [d, t, u, c] in document order (comments left  *)
(*  out), u identifies the node, c the component instance of an x-a;       *)
(*  e.renders [u, l, inj, id]; e.fx [t "s"/"c", u, i, ok]: effects set up  *)
(*  and cleaned up, ok if the DOM already was as in the end; e.refs [t, b, *)
(*  v]; e.clicks [b, v]; e.settle "ok"/"err"/"none", e.cause, e.names;     *)
(*  e.threw: what threw while committing, in order; x in e.fx and e.refs   *)
(*  if the setup or reference threw.                                       *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m

Put(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]
\* pend: effects <<id, i>> whose setup threw; lost: references <<button, v>> that threw; threw: something has thrown while committing
MonInit == [n |-> None, du |-> Empty, cu |-> Empty, ids |-> Empty, pend |-> {}, lost |-> {}, threw |-> FALSE, bad |-> {}]

\* Pairs that are consistent with a one-to-one map from specified to observed identities.
Injective(f) == \A x, y \in DOMAIN f : f[x] = f[y] => x = y
Extends(f, prs) == /\ \A p \in prs : p[1] \in DOMAIN f => f[p[1]] = p[2]
                   /\ \A p \in prs : p[1] \notin DOMAIN f => p[2] \notin {f[x] : x \in DOMAIN f}
                   /\ \A p, q \in prs : (p[1] = q[1]) <=> (p[2] = q[2])
Grow(f, prs) == [x \in {p[1] : p \in prs} |-> (CHOOSE p \in prs : p[1] = x)[2]] @@ f

Shape(s) == [j \in 1..Len(s) |-> [d |-> s[j].d, t |-> s[j].t]]
HR == [d |-> 0, t |-> "hr", b |-> "hr/0"]

\* Is x an ancestor of y in the live tree n (by id)?
Below(n, id) == LET S == {x \in Range(Nodes(n)) : x.id = id} IN IF S = {} THEN {} ELSE {y.id : y \in Range(Comps(CHOOSE x \in S : TRUE))} \ {id}

MonOp(mm, e) ==
  LET op   == e.op
      step == e.step
      r    == Apply(mm.n, op, step)
      n    == r.n
      fail == r.fail
      dead == op.op = "dead"
      old  == mm.n
      \* DOM
      want == [main |-> <<HR>> \o MainDom(n), P1 |-> <<[HR EXCEPT !.b = "hr/1"]>> \o PDom(n, "P1"), P2 |-> PDom(n, "P2")]
      cs   == {"main", "P1", "P2"}
      same == \A c \in cs : Shape(want[c]) = Shape(e.dom[c])
      prs  == UNION {{<<want[c][j].b, e.dom[c][j].u>> : j \in 1..Len(want[c])} : c \in cs}
      \* component instances: by the renders of a successful operation, and in the DOM
      rend == IF fail THEN {} ELSE {<<x.l, x.u>> : x \in Range(e.renders)}
      byl(l) == {x \in Range(Comps(n)) : x.d.l = l}
      cprs == {<<(CHOOSE x \in byl(p[1]) : TRUE).id, p[2]>> : p \in {p \in rend : byl(p[1]) # {}}}
              \cup (IF same THEN UNION {{<<want[c][j].b, e.dom[c][j].c>> : j \in {j \in 1..Len(want[c]) : want[c][j].t = "x-a"}} : c \in cs} ELSE {})
      strip(b) == b
      cu2  == Grow(mm.cu, {<<p[1], p[2]>> : p \in {p \in cprs : \E x \in Range(Comps(n)) : x.id = p[1]}})
      \* the ids under which the x-a elements appear carry a suffix
      acprs == {<<x.id, q[2]>> : <<x, q>> \in {z \in Range(Comps(n)) \X cprs : z[2][1] \in {z[1].id, z[1].id \o "/1"}}}
      cids == Grow(mm.cu, acprs)
      known(id) == id \in DOMAIN cids
      \* effects
      oldc == Comps(old)
      newids == {x.id : x \in Range(Comps(n))}
      gone == IF fail THEN {} ELSE {x \in Range(oldc) : x.id \notin newids}
      full == IF r.act /\ ~fail THEN Setups(n, step, mm.pend) ELSE <<>>
      obsS == SelectSeq(e.fx, LAMBDA x : x.t = "s")
      obsC == SelectSeq(e.fx, LAMBDA x : x.t = "c")
      key(x) == IF known(x.id) THEN <<cids[x.id], x.i>> ELSE <<0, 0>>
      obsSk == [j \in 1..Len(obsS) |-> <<obsS[j].u, obsS[j].i>>]
      setsk == [j \in 1..Len(full) |-> key(full[j])]
      seen == SelectSeq(setsk, LAMBDA x : x \in Range(obsSk))
      setupsOK == /\ Range(obsSk) \subseteq Range(setsk)
                  /\ \A j \in 1..Len(full) : full[j].must => setsk[j] \in Range(obsSk)
                  /\ Cardinality(Range(obsSk)) = Len(obsSk)
      rerun == {setsk[j] : j \in {j \in 1..Len(full) : ~full[j].fresh /\ <<full[j].id, full[j].i>> \notin mm.pend /\ setsk[j] \in Range(obsSk)}}
      ended == UNION {{<<cids[x.id], j>> : j \in {j \in 1..Len(Modes(x.d.name)) : <<x.id, j>> \notin mm.pend}} : x \in {x \in gone : known(x.id)}}
      threwS == {<<obsS[j].u, obsS[j].i>> : j \in {j \in 1..Len(obsS) : obsS[j].x}}
      setIds == {<<full[j].id, full[j].i>> : j \in {j \in 1..Len(full) : setsk[j] \in Range(obsSk)}}
      pend2 == {p \in mm.pend \ setIds : p[1] \in newids} \cup {<<full[j].id, full[j].i>> : j \in {j \in 1..Len(full) : setsk[j] \in threwS}}
      obsCk == [j \in 1..Len(obsC) |-> <<obsC[j].u, obsC[j].i>>]
      cleansOK == /\ Range(obsCk) = rerun \cup ended
                  /\ Cardinality(Range(obsCk)) = Len(obsCk)
      pos(t, k) == CHOOSE j \in 1..Len(e.fx) : e.fx[j].t = t /\ <<e.fx[j].u, e.fx[j].i>> = k
      before == \A k \in rerun : pos("c", k) < pos("s", k)
      ancestorsFirst == \A x \in gone : \A y \in gone : y.id \in Below(old, x.id) /\ known(x.id) /\ known(y.id) =>
                           \A a \in {j \in 1..Len(obsC) : obsC[j].u = cids[x.id]} : \A b \in {j \in 1..Len(obsC) : obsC[j].u = cids[y.id]} : a < b
      \* element references and listeners
      du2  == IF same THEN Grow(mm.du, prs) ELSE mm.du
      live(t) == {<<x.id \o "/1", x.d.v>> : x \in {x \in Range(Buttons(t)) : x.d.v # ""}}
      \* a reference is another one if what throws is
      refd(t) == {<<x.id \o "/1", x.d.v \o x.d.eb>> : x \in {x \in Range(Buttons(t)) : x.d.v # ""}}
      uidOf(b) == IF b \in DOMAIN du2 THEN du2[b] ELSE 0
      obsOn == SelectSeq(e.refs, LAMBDA x : x.t = "on")
      on   == {<<uidOf(x[1]), x[2]>> : x \in refd(n) \ refd(old)}
      off  == {<<uidOf(x[1]), x[2]>> : x \in refd(old) \ refd(n)} \ mm.lost
      lost2 == (mm.lost \ {p \in mm.lost : p \in {<<uidOf(x[1]), x[2]>> : x \in refd(old) \ refd(n)}}) \cup {<<obsOn[j].b, obsOn[j].v>> : j \in {j \in 1..Len(obsOn) : obsOn[j].x}}
      obsOff == SelectSeq(e.refs, LAMBDA x : x.t = "off")
      pr(s) == {<<s[j].b, s[j].v>> : j \in 1..Len(s)}
      refsOK == /\ pr(obsOn) = on /\ Len(obsOn) = Cardinality(on)
                /\ pr(obsOff) = off /\ Len(obsOff) = Cardinality(off)
                /\ \A x \in 1..Len(e.refs) : \A y \in 1..Len(e.refs) : e.refs[x].b = e.refs[y].b /\ e.refs[x].t = "off" /\ e.refs[y].t = "on" => x < y
      clk  == {<<uidOf(x[1]), x[2]>> : x \in live(n)}
      clicksOK == pr(e.clicks) = clk /\ Len(e.clicks) = Cardinality(clk)
      \* provided instances
      injOK == fail \/ \A x \in Range(e.renders) : \A c \in byl(x.l) : x.inj = <<Inject(c, "K1"), Inject(c, "K2"), Inject(c, "K3")>>
      \* identifiers
      idp  == {<<x.u, x.hid>> : x \in Range(e.renders)}
      \* failures
      boom == Booms(r.tried, step)
      errOK == /\ e.settle = "err"
               /\ \E x \in Range(boom) : e.cause = x.d.l /\ e.names = PathTo(r.tried, x.d.l)
      who  == IF fail THEN "C23" ELSE IF dead THEN "C10" ELSE "C01"
      bad  == (IF same THEN {} ELSE {<<who, "the DOM is not what was rendered">>})
              \cup (IF same /\ ~Extends(mm.du, prs) THEN {<<IF fail THEN "C23" ELSE IF dead THEN "C10" ELSE "C02", "DOM nodes were not kept or not built anew">>} ELSE {})
              \cup (IF ~fail /\ ~Extends(mm.cu, acprs) THEN {<<"C02", "component instances were not kept or not built anew">>} ELSE {})
              \cup (IF ~fail /\ \E x \in Range(Comps(n)) : ~known(x.id) THEN {<<"C02", "a component was not rendered">>} ELSE {})
              \cup (IF dead /\ e.renders # <<>> THEN {<<"C10", "a removed component was rendered">>} ELSE {})
              \cup (IF ~setupsOK THEN {<<IF fail THEN "C23" ELSE IF dead THEN "C10" ELSE "C03", "effects set up are not those whose dependencies changed">>} ELSE {})
              \cup (IF ~cleansOK THEN {<<IF fail THEN "C23" ELSE IF dead THEN "C10" ELSE "C03", "cleanups are not those of effects run again or removed">>} ELSE {})
              \cup (IF setupsOK /\ cleansOK /\ ~before THEN {<<"C03", "an effect was set up again before its cleanup">>} ELSE {})
              \cup (IF setupsOK /\ obsSk # seen THEN {<<"C04", "effects ran out of order">>} ELSE {})
              \cup (IF ~fail /\ \E x \in Range(obsS) : ~x.ok THEN {<<"C04", "an effect did not see the final DOM">>} ELSE {})
              \cup (IF cleansOK /\ ~ancestorsFirst THEN {<<"C04", "a descendant was cleaned up before its ancestor">>} ELSE {})
              \cup (IF same /\ ~refsOK THEN {<<"C13", "element references are not attached exactly once">>} ELSE {})
              \cup (IF same /\ ~clicksOK THEN {<<"C13", "listeners are not called exactly once">>} ELSE {})
              \cup (IF ~injOK THEN {<<"C11", "not the nearest provider was found">>} ELSE {})
              \cup (IF ~Extends(mm.ids, idp) THEN {<<"C24", "identifiers are not unique and stable">>} ELSE {})
              \cup (IF fail /\ ~errOK THEN {<<"C23", "a failed render was not rejected with its cause and path">>} ELSE {})
              \cup (IF e.threw # <<>> /\ ~(e.settle = "err" /\ e.cause = e.threw[1]) THEN {<<"C26", "an update was not rejected with what was thrown first">>} ELSE {})
              \cup (IF ~fail /\ e.threw = <<>> /\ e.settle # "ok" THEN {<<IF dead THEN "C10" ELSE "C06", "an update did not settle well">>} ELSE {})
      threw == mm.threw \/ e.threw # <<>>
  IN [n |-> n, du |-> du2, cu |-> IF fail THEN mm.cu ELSE cids, ids |-> Grow(mm.ids, idp), pend |-> pend2, lost |-> lost2, threw |-> threw,
      bad |-> IF threw THEN {<<"C26", b[2]>> : b \in bad} ELSE bad]

MonStep(mm, e) ==
  IF e.e = "op" THEN MonOp(mm, e) ELSE [mm EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]

Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MonInit
\* Nothing is judged after the first mismatch.
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
Bad == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == Bad = {}
Report == [tr |-> tr, i |-> i, bad |-> Bad]
=============================================================================
