-------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* Templates of the same strings in different modes (C14): `<a>${v}</a>` as *)
(* html, svg, math and text, in lists of two roots, keyed or not. Each shows*)
(* what its mode says, and its node is kept as long as its mode is.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Pick(S) == RandomElement(S)
Kinds == {"html", "svg", "math", "text"}
VARIABLES out, tr, i, m

\* Generating: renders [r, its]; items [k, m, v].
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
Item(k, ms) == [k |-> k, m |-> Pick(ms), v |-> Pick({"1", "2"})]
Items(z) == \* few modes, so that they meet
  LET ms == {Pick(Kinds), Pick(Kinds)} ks == Shuffle(Pick(SUBSET {"a", "b", "c"})) n == Pick(1..3)
  IN IF Pick(0..2) = 0 THEN [j \in 1..n |-> Item("", ms)] ELSE [j \in 1..Len(ks) |-> Item(ks[j], ms)]
GInit == out = <<>> /\ tr = 0 /\ i = 0 /\ m = 0
GNext == /\ UNCHANGED <<tr, i, m>>
         /\ \/ /\ Len(out) < 5 /\ \E its \in {Items(Len(out))} : out' = Append(out, [r |-> Pick(0..1), its |-> its])
            \/ /\ Len(out) = 5 /\ PrintT("@@" \o ToJson([ops |-> out, partial |-> Pick(BOOLEAN)])) /\ out' = Append(out, 0)

\* Judging: event [e "shown", r, its, dom]: dom, the elements or texts of root r: [n name, ns, t text, u identity].
Traces == ndJsonDeserialize(IOEnv.TRACES)
Want(it) == CASE it.m = "html" -> [n |-> "a", ns |-> "html", t |-> it.v] [] it.m = "svg" -> [n |-> "a", ns |-> "svg", t |-> it.v]
              [] it.m = "math" -> [n |-> "a", ns |-> "math", t |-> it.v] [] OTHER -> [n |-> "#text", ns |-> "", t |-> "<a>" \o it.v \o "</a>"]
\* Items of one list that continue in another; when keys come or go, either may happen.
Pairs(a, b) == {<<x, y>> \in (1..Len(a)) \X (1..Len(b)) : a[x].k = b[y].k /\ (a[x].k # "" \/ x = y)}
MInit == [last |-> [r \in {0, 1} |-> [its |-> <<>>, us |-> <<>>]], bad |-> {}]
On(mm, e) ==
  LET n == Len(e.its) o == mm.last[e.r] us == [j \in 1..Len(e.dom) |-> e.dom[j].u]
      same == Len(e.dom) = n /\ \A j \in 1..n : [n |-> e.dom[j].n, ns |-> e.dom[j].ns, t |-> e.dom[j].t] = Want(e.its[j])
      keys(x) == {x[j].k # "" : j \in 1..Len(x)}
      kept == \A p \in Pairs(o.its, e.its) : o.its[p[1]].m = e.its[p[2]].m => o.us[p[1]] = us[p[2]]
      anew == \A x \in 1..Len(o.us) : \A y \in 1..Len(us) : o.us[x] = us[y] => <<x, y>> \in Pairs(o.its, e.its) /\ o.its[x].m = e.its[y].m
  IN [last |-> [mm.last EXCEPT ![e.r] = [its |-> e.its, us |-> us]],
      bad |-> (IF same THEN {} ELSE {<<"C14", "a template is not shown in its mode">>})
              \cup (IF same /\ Cardinality(keys(o.its) \cup keys(e.its)) < 2 /\ ~(kept /\ anew) THEN {<<"C14", "templates in different modes are one, or one in one mode is not">>} ELSE {})]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit /\ out = <<>>
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {} /\ i' = i + 1 /\ UNCHANGED <<tr, out>>
        /\ m' = LET e == Traces[tr].ev[i + 1] IN IF e.e = "shown" THEN On(m, e) ELSE [m EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
