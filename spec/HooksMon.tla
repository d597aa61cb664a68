------------------------------ MODULE HooksMon ------------------------------
(***************************************************************************)
(* What hooks promise over any schedule of renders (C05, C24, C25), as a   *)
(* monitor over dispatches, renders, commits and settlements.              *)
(*                                                                         *)
(* The state of a reducer hook is a sequence of letters; actions append,   *)
(* replace or leave it.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Act(st, a) == CASE a.op = "app" -> Append(st, a.v)
                [] a.op = "set" -> <<a.v>>
                [] a.op = "clr" -> <<>>
                [] OTHER        -> st
RECURSIVE Fold(_, _, _)
Fold(st, as, S) == IF as = <<>> THEN st ELSE Fold(IF Head(as).id \in S THEN Act(st, Head(as)) ELSE st, Tail(as), S)
Ids(as) == {as[i].id : i \in 1..Len(as)}
All(as) == Fold(<<>>, as, Ids(as))
\* Whether a state is equal to the previous one in the eyes of a dispatch.
Equal(eq, s, t) == CASE eq = "len" -> Len(s) <= Len(t) [] eq = "never" -> FALSE [] eq = "always" -> TRUE [] OTHER -> s = t

\* acts[h]: actions of hook h in dispatch order [id, op, v, fin, tr, ls, seen];
\* tr: transient, that is, not to last; ls: its lanes; seen: a render that was shown may have applied it.
MonInit(hooks) == [acts |-> [h \in hooks |-> <<>>], bad |-> {}]
Chk(m, ok, prop, why) == IF ok THEN m ELSE [m EXCEPT !.bad = @ \cup {<<prop, why>>}]
Transient(as) == {as[i].id : i \in {i \in 1..Len(as) : as[i].tr}}

\* Every action of a hook that starts anew in each render (pass) may be left behind.
\* cur: the state when a is dispatched.
MonDispatch(m, h, a, dropped, eq, cur, pass) ==
  LET as == m.acts[h] all == All(as)
      plain == ~pass /\ Transient(as) = {} \* nothing but what the actions add up to
  IN IF dropped
     THEN Chk(m, /\ Equal(eq, Act(cur, a), cur)
                 /\ plain => Act(all, a) = all \/ (eq # "" /\ cur = all), "C05", "an action that changes the state was dropped")
     ELSE LET m1 == Chk(m, ~(plain /\ Equal(eq, Act(all, a), all) /\ \A i \in 1..Len(as) : as[i].fin), "C05", "an action that changes nothing causes a render")
          IN [m1 EXCEPT !.acts[h] = Append(@, [id |-> a.id, op |-> a.op, v |-> a.v, fin |-> FALSE, tr |-> a.tr, ls |-> a.ls, seen |-> FALSE])]
MonFinish(m, h, id) ==
  [m EXCEPT !.acts[h] = [i \in 1..Len(@) |-> IF @[i].id = id THEN [@[i] EXCEPT !.fin = TRUE] ELSE @[i]]]
\* The optional actions that are part of st: one set of them for every way it can be explained.
\* init: what the fold starts with; live: the transient actions that may be applied.
Ways(m, h, st, init, live, pass) ==
  LET as == m.acts[h]
      F  == IF pass THEN {} ELSE {as[i].id : i \in {i \in 1..Len(as) : as[i].fin /\ ~as[i].tr}}
      R  == (Ids(as) \ F) \ (Transient(as) \ live)
  IN IF R = {} THEN IF st = Fold(init, as, F) THEN {{}} ELSE {}
     ELSE {S \in SUBSET R : Fold(init, as, F \cup S) = st}
\* st is shown: it is the fold over the finished actions and some of the others.
MonShow(m, h, st, init, live, pass) ==
  LET W == Ways(m, h, st, init, live, pass)
      m1 == Chk(m, W # {}, "C05", "a state is not the fold of a subset of the actions with all finished ones")
  IN [m1 EXCEPT !.acts[h] = [i \in 1..Len(@) |-> IF @[i].id \in UNION W THEN [@[i] EXCEPT !.seen = TRUE] ELSE @[i]]]
\* In the end, all but the transient actions count.
MonEnd(m, h, st, live) ==
  LET as == m.acts[h] T == Transient(as)
  IN Chk(m, \E S \in SUBSET (T \cap live) : st = Fold(<<>>, as, (Ids(as) \ T) \cup S), "C05", "a settled state is not the fold of all actions")
=============================================================================
