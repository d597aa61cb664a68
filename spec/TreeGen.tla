------------------------------ MODULE TreeGen ------------------------------
(* Draws scripts: sequences of renders, state changes and unmounts.         *)
EXTENDS Tree, Json, IOUtils
CONSTANTS MaxOps, Depth, WithBoom, WithProv, WithThrow
VARIABLES n, cur, script

Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Vals == {"", "1", "2", "3"}
Keys == {"a", "b", "c", "d", "e", "f"}
RSeq(S, m) == LET k == Pick(0..m) IN [i \in 1..k |-> Pick(S)]

Deps == {<<>>, <<"x">>, <<"y">>, <<"x", "y">>}
Provs == IF WithProv THEN {<<>>, <<>>, <<"K1:1">>, <<"K1:2">>, <<"K2:1">>, <<"K2:2">>, <<"K3:1">>, <<"K1:1", "K2:1">>, <<"K2:2", "K1:2">>} ELSE {<<>>}

\* What throws while committing.
Thr(d) == [d EXCEPT !.eb =
  IF ~WithThrow \/ Chance(70) THEN ""
  ELSE IF d.k = "c" THEN Pick({"s", "c"})
  ELSE IF d.k = "t" /\ d.tpl = 9 THEN Pick({"r", "q"})
  ELSE IF d.k = "t" /\ d.tpl = 1 THEN "t" ELSE ""]
Leaf(z) == Thr(LET x == Pick(1..8) IN
        CASE x \in 1..4 -> T(1, Pick(Vals), <<>>) [] x = 5 -> T(5, Pick(Vals), <<>>) [] x = 6 -> T(6, "", <<>>)
          [] OTHER -> T(9, Pick(Vals), <<>>))

\* A random order of a random subset of the keys.
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})

RECURSIVE RTree(_)
RECURSIVE RItems(_, _, _)
RItems(ks, i, m) == IF i > Len(ks) THEN <<>> ELSE <<[RTree(m) EXCEPT !.key = ks[i]]>> \o RItems(ks, i + 1, m)
RTree(m) ==
  IF m = 0 THEN Leaf(m) ELSE
  LET x == Pick(1..20)
      d == CASE x \in 1..3 -> Leaf(m)
             [] x = 4  -> T(2, "", <<RTree(m - 1)>>)
             [] x = 5  -> T(3, Pick(Vals), <<RTree(m - 1)>>)
             [] x = 6  -> T(4, "", <<RTree(m - 1)>>)
             [] x = 7  -> T(7, "", <<RTree(m - 1), RTree(m - 1)>>)
             [] x = 8  -> T(8, "", <<RTree(m - 1), RTree(m - 1)>>)
             [] x \in 9..12 -> F(RItems(Shuffle(Pick(SUBSET Keys)), 1, IF m > 1 THEN Pick({0, 0, m - 2, m - 1}) ELSE 0))
             [] x = 13 -> F([i \in 1..Pick(0..3) |-> RTree(m - 1)])
             [] x \in 14..19 -> Thr([C(Pick({"A", "A", "W", "W", "M", "E"}), [i \in 1..Pick(1..2) |-> RTree(m - 1)], Pick(Deps)) EXCEPT !.prov = Pick(Provs)])
             [] x = 20 -> P(Pick({"P1", "P2"}), RTree(m - 1))
  IN IF Chance(10) THEN [d EXCEPT !.cache = TRUE] ELSE IF Chance(5) THEN [d EXCEPT !.key = Pick(Keys)] ELSE d

\* A tree similar to d.
RECURSIVE Mut(_, _)
Mut(d, m) ==
  LET x == Pick(1..12)
      kids == [d EXCEPT !.h = [i \in 1..Len(d.h) |-> IF Chance(70) THEN Mut(d.h[i], IF m > 0 THEN m - 1 ELSE 0) ELSE d.h[i]]]
      keyed == d.k = "f" /\ \A i \in 1..Len(d.h) : d.h[i].key # ""
  IN CASE x \in 2..4 /\ d.eb # "" -> [kids EXCEPT !.eb = ""]
       [] x = 1 -> [RTree(m) EXCEPT !.key = d.key]
       [] x = 2 -> IF d.k = "t" THEN Thr([kids EXCEPT !.v = Pick(Vals)]) ELSE kids
       [] x \in 3..9 /\ keyed ->
            LET old == {kids.h[i].key : i \in 1..Len(kids.h)}
                new == Pick({old, old, Pick(SUBSET Keys), Pick(SUBSET old), old \cup {Pick(Keys)}, Keys})
                ks  == Shuffle(new)
                item(k) == IF k \in old THEN kids.h[CHOOSE i \in 1..Len(kids.h) : kids.h[i].key = k]
                           ELSE [RTree(IF m > 0 THEN m - 1 ELSE 0) EXCEPT !.key = k]
            IN [kids EXCEPT !.h = [i \in 1..Len(ks) |-> item(ks[i])]]
       [] x \in 3..9 /\ d.k = "f" /\ ~keyed ->
            [kids EXCEPT !.h = SubSeq(@, 1, Pick(0..Len(@))) \o [i \in 1..Pick(0..2) |-> [RTree(IF m > 0 THEN m - 1 ELSE 0) EXCEPT !.key = ""]]]
       [] x \in 4..6 /\ d.k = "c" -> Thr([kids EXCEPT !.d = Pick(Deps), !.prov = Pick(Provs)])
       [] x = 10 -> d
       [] OTHER -> kids

\* Lists are keyed throughout or not at all; each portal target is used once.
RECURSIVE Norm(_)
Norm(d) == LET h == [i \in 1..Len(d.h) |-> Norm(d.h[i])]
               allk == \A i \in 1..Len(h) : h[i].key # "" /\ \A j \in 1..Len(h) : j # i => h[j].key # h[i].key
           IN IF d.k = "f" /\ ~allk THEN [d EXCEPT !.h = [i \in 1..Len(h) |-> [h[i] EXCEPT !.key = ""]]] ELSE [d EXCEPT !.h = h]
RECURSIVE Portals(_)
RECURSIVE PortalsOf(_, _)
PortalsOf(h, i) == IF i > Len(h) THEN <<>> ELSE Portals(h[i]) \o PortalsOf(h, i + 1)
Portals(d) == (IF d.k = "p" THEN <<d.to>> ELSE <<>>) \o PortalsOf(d.h, 1)
RECURSIVE NoPortals(_)
NoPortals(d) == IF d.k = "p" THEN [T(2, "", <<NoPortals(d.h[1])>>) EXCEPT !.key = d.key]
                ELSE [d EXCEPT !.h = [i \in 1..Len(d.h) |-> NoPortals(d.h[i])]]
ProperAs(d, l) == LET e == Norm(d) IN Label(IF Cardinality(Range(Portals(e))) = Len(Portals(e)) THEN e ELSE NoPortals(e), l)
Proper(d) == ProperAs(d, "r")

RECURSIVE DescComps(_)
RECURSIVE DescCompsOf(_, _)
DescCompsOf(h, i) == IF i > Len(h) THEN {} ELSE DescComps(h[i]) \cup DescCompsOf(h, i + 1)
DescComps(d) == (IF d.k = "c" THEN {d.l} ELSE {}) \cup DescCompsOf(d.h, 1)
RECURSIVE Boom(_, _)
Boom(d, l) == [d EXCEPT !.boom = (d.k = "c" /\ d.l = l), !.cache = FALSE, !.h = [i \in 1..Len(d.h) |-> Boom(d.h[i], l)]]
RECURSIVE Calm(_)
Calm(d) == [d EXCEPT !.boom = FALSE, !.h = [i \in 1..Len(d.h) |-> Calm(d.h[i])]]

\* How an update is requested.
Ways == {"", "sync", "user-blocking", "background", "hand"}

\* Random values are bound by \E, which evaluates them once.
Step(op) == \E w \in {Pick(Ways)} : /\ script' = Append(script, op @@ [way |-> w])
                                    /\ n' = Apply(n, op, Len(script) + 1).n

Init == n = None /\ cur = <<>> /\ script = <<>>
DoRender ==
  \E d0 \in {IF cur = <<>> \/ Chance(15) THEN Proper(RTree(Depth)) ELSE Proper(Mut(Calm(cur[1]), Depth))} :
  \E l \in {IF WithBoom /\ DescComps(d0) # {} /\ Chance(30) THEN Pick(DescComps(d0)) ELSE ""} :
  \E d \in {IF l # "" THEN Boom(d0, l) ELSE d0} :
    cur' = <<d>> /\ Step([op |-> "render", d |-> d])
DoSet == LET cs == Comps(n) IN
  /\ cs # <<>>
  /\ \E c \in {cs[Pick(1..Len(cs))]} : \E s \in {Pick(0..2)} : Step([op |-> "set", l |-> c.d.l, s |-> s])
  /\ UNCHANGED cur
DoDead == \E j \in {Pick(0..9)} : Step([op |-> "dead", i |-> j]) /\ UNCHANGED cur
DoUnmount == Step([op |-> "unmount"]) /\ UNCHANGED cur
Next == \/ /\ Len(script) < MaxOps
           /\ \E x \in {Pick(1..20)} :
              CASE x \in 1..11 \/ IsNone(n) -> DoRender
                [] x \in 12..17 -> IF Comps(n) # <<>> THEN DoSet ELSE DoRender
                [] x \in 18..19 -> DoDead
                [] OTHER -> DoUnmount
        \/ /\ Len(script) = MaxOps
           /\ PrintT("@@" \o ToJson(script))
           /\ script' = Append(script, [op |-> "end"])
           /\ UNCHANGED <<n, cur>>
=============================================================================
