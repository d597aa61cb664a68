--------------------------- MODULE DerivableTrace ---------------------------
(* Judges recorded operations on derivable state.                           *)
EXTENDS Derivable
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
RECURSIVE Node(_)
Node(x) == [t |-> x.t, v |-> x.v, f |-> {<<q[1], Node(q[2])>> : q \in Range(x.f)}, h |-> [j \in 1..Len(x.h) |-> Node(x.h[j])], id |-> x.id, acc |-> x.acc]
RECURSIVE Ids(_)
Ids(n) == (IF n.id > 0 THEN {n.id} ELSE {}) \cup UNION {Ids(q[2]) : q \in n.f} \cup UNION {Ids(n.h[j]) : j \in 1..Len(n.h)}
\* Whether the identities seen fit what is known.
RECURSIVE Fits(_, _, _)
Fits(n, x, seen) == /\ CASE n.id > 0 -> x.id = n.id [] n.id = 0 -> x.id \notin seen [] OTHER -> TRUE
                    /\ \A q \in n.f : Fits(q[2], Own(x, q[1]), seen)
                    /\ \A j \in 1..Len(n.h) : Fits(n.h[j], x.h[j], seen)
\* fresh: the getters "pick" that were read since what decides which field they tell changed.
\* tree; seen identities; subs [id, p, how, live]; going: the operation going on and whom it told; old: the values obtained before
Start(t) == [tree |-> Node(t.ini), seen |-> {}, subs |-> {}, kept |-> <<>>, fresh |-> {}, going |-> <<>>, told |-> {}, old |-> <<>>, bad |-> {}]
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C16", why>>}]
\* Takes over the identities seen at p.
RECURSIVE Learn(_, _, _)
Learn(n, p, x) == IF p = <<>> THEN x ELSE IF n.t = "a" THEN [n EXCEPT !.h[Pos(p[1])] = Learn(@, Tail(p), x)]
                  ELSE [n EXCEPT !.f = {IF q[1] = p[1] THEN <<q[1], Learn(q[2], Tail(p), x)>> ELSE q : q \in @}]
Saw(mm, p, x) ==
  LET n == Get(mm.tree, p) IN
  IF Bare(n) # Bare(x) THEN Bad(mm, FALSE, "a value is not that of the same operations on a plain value")
  ELSE Bad([mm EXCEPT !.tree = IF (p # <<>> /\ p[Len(p)] \in {"sum", "pick", "length"}) \/ n.t = "u" THEN @ ELSE Learn(@, Real(@, p), x), !.seen = @ \cup Ids(x), !.fresh = IF p # <<>> /\ p[Len(p)] = "pick" THEN @ \cup {p} ELSE @],
           Fits(n, x, mm.seen), "a part that did not change is not shared, or one that changed was modified in place")
\* Who must and who may be told of operation o turning tree n into n2.
Changed(n, n2, p) == Bare(Get(n, p)) # Bare(Get(n2, p))
Special(p) == p # <<>> /\ p[Len(p)] \in {"sum", "pick", "pair", "length"}
Must(mm, o, n2) == LET p == Real(mm.tree, o.p) IN
  {s.id : s \in {s \in mm.subs : s.live /\ s.how = "full" /\ Changed(mm.tree, n2, s.p)
                    /\ IF Special(s.p) THEN (s.p[Len(s.p)] = "sum" \/ (s.p[Len(s.p)] = "pick" /\ Len(p) >= Len(s.p) /\ (s.p \in mm.fresh \/ p[Len(s.p)] = "a")))
                                             /\ Prefix(Front(s.p), p) /\ Len(p) >= Len(s.p)
                       ELSE IF o.op = "del" THEN Prefix(s.p, Front(p)) ELSE Prefix(s.p, p)}}
  \cup {s.id : s \in {s \in mm.subs : s.live /\ s.how = "shallow" /\ ~Special(s.p) /\ o.op = "set" /\ s.p = p /\ o.x.t \in {"p"} /\ Changed(mm.tree, n2, p)}}
May(mm, o) == LET p == Real(mm.tree, o.p) IN
  {s.id : s \in {s \in mm.subs : ~s.live \/ Special(s.p) \/ (s.how = "full" /\ Prefix(s.p, p)) \/ (s.how = "shallow" /\ s.p = p) \/ (Compound(o) /\ Prefix(p, s.p))}}
Begin(mm, o) == LET n2 == After(mm.tree, o) p == Real(mm.tree, o.p)
                    mm2 == [mm EXCEPT !.going = <<[must |-> Must(mm, o, n2), may |-> May(mm, o), half |-> Compound(o), o |-> o, tree |-> mm.tree]>>, !.told = {}, !.tree = n2,
                                              !.fresh = IF o.op = "read" THEN @ ELSE {g \in @ : ~Prefix(p, g) /\ ~Prefix(Append(Front(g), "a"), p)}]
                IN \* what is below an assigned place is another place afterwards
                   [mm2 EXCEPT !.subs = {IF (Prefix(p, s.p) /\ s.p # p /\ o.op # "read") \/ (o.op = "del" /\ s.p = p) THEN [s EXCEPT !.live = FALSE] ELSE s : s \in @},
                              !.kept = [j \in 1..Len(@) |-> IF Prefix(p, @[j].p) /\ @[j].p # p THEN [@[j] EXCEPT !.live = FALSE] ELSE @[j]]]
End(mm) == Bad([mm EXCEPT !.going = <<>>], mm.going[1].must \subseteq mm.told, "a subscriber is not notified of a change")
Told(mm, e) ==
  LET s == CHOOSE s \in mm.subs : s.id = e.id
      m1 == [mm EXCEPT !.told = @ \cup {e.id}]
      m2 == Bad(m1, mm.going # <<>> /\ e.id \in mm.going[1].may, "a subscriber is notified of something that does not concern it")
  IN IF e.x.t = "none" \/ ~s.live \/ mm.going = <<>> \/ mm.going[1].half THEN m2 ELSE IF e.root THEN Saw(m2, <<>>, Node(e.x)) ELSE Saw(m2, s.p, Node(e.x))
\* What the event of an assignment or deletion tells: how, where from the subscribed node, what was and is.
Event(mm, e) ==
  LET s == CHOOSE s \in mm.subs : s.id = e.id
      g == mm.going[1]
      o == g.o
  IN IF mm.going = <<>> \/ ~s.live \/ Special(s.p) \/ "o" \notin DOMAIN g THEN mm
     ELSE IF o.op \notin {"set", "del"} \/ Special(o.p) \/ ~Prefix(s.p, o.p) THEN mm
     ELSE Bad(mm, /\ e.type = (IF o.op = "del" THEN "delete" ELSE "set") /\ e.path = SubSeq(o.p, Len(s.p) + 1, Len(o.p))
                  /\ (o.op = "set" => Bare(Node(e.old)) = Bare(Get(g.tree, o.p)) /\ Bare(Node(e.now)) = Bare(o.x)), "an event does not tell what happened")
On(mm, e) ==
  CASE "ini" \notin DOMAIN Traces[tr] -> [mm EXCEPT !.bad = {<<"ALL", "the code throws">>}]
    [] e.e = "begin" -> Begin(mm, [e.o EXCEPT !.x = Node(e.o.x)])
    [] e.e = "end" -> End(mm)
    \* A handle kept from before: what was replaced is let go of.
    [] e.e = "keep" -> [mm EXCEPT !.kept = Append(@, [p |-> e.p, live |-> TRUE])]
    [] e.e = "stale" -> IF mm.kept[e.j].live THEN [mm EXCEPT !.bad = {<<"ALL", "the harness misjudged a handle">>}]
                        ELSE [mm EXCEPT !.going = <<[must |-> {}, may |-> {s.id : s \in {s \in mm.subs : ~s.live}}, half |-> FALSE]>>, !.told = {}]
    [] e.e = "read" -> LET m1 == Saw(mm, e.p, Node(e.x)) IN [m1 EXCEPT !.old = Append(@, Node(e.x))]
    [] e.e = "told" -> Told(mm, e)
    [] e.e = "event" -> Event(mm, e)
    [] e.e = "sub" -> [mm EXCEPT !.subs = @ \cup {[id |-> e.id, p |-> e.p, how |-> e.how, live |-> TRUE]}]
    [] e.e = "keys" -> LET n == Get(mm.tree, e.p) IN
         Bad(Bad(mm, Range(e.keys) = Keys(n) /\ Len(e.keys) = Cardinality(Keys(n)), "a draft has not the keys of the value"),
             \A q \in Range(e.has) : q[2] = (q[1] \in Keys(n) \/ (n.acc /\ q[1] = "sum")) , "a draft has other properties than the value")
    [] e.e = "old" -> Bad(mm, \A q \in Range(e.xs) : mm.old[q[1]] = Node(q[2]), "a value obtained earlier was modified")
    [] OTHER -> [mm EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
\* A crash leaves nothing but events.
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = Start(IF "ini" \in DOMAIN Traces[tr] THEN Traces[tr] ELSE [ini |-> [N0 EXCEPT !.f = <<>>]])
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr /\ m' = On(m, Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
