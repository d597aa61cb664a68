------------------------------- MODULE Signals -------------------------------
(***************************************************************************)
(* Signals (C15): atoms holding values, values computed from signals, and  *)
(* subscribers, which may read, write, subscribe and unsubscribe while     *)
(* being notified.                                                         *)
(*                                                                         *)
(* A graph g is a sequence of signals: [t "atom"/"acc", v] or              *)
(* [t "comp", d (signals before it), w (weights), m, b]: the sum of its       *)
(* weighted dependencies modulo m.                                         *)
(* A state: v values of the atoms, subs the subscriptions in order         *)
(* [id, s (signal)], frames the notifications going on, innermost last     *)
(* [a atom, from value, to value, due subscribers, told, new].             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Range(s) == {s[j] : j \in 1..Len(s)}
\* Values are small numbers and the following. A computation fails, when its result is b, or when one it depends on fails.
NaN == 100
MinusZero == 101
Fails == 102
Num(x) == IF x = MinusZero THEN 0 ELSE x
RECURSIVE Val(_, _, _)
RECURSIVE Sum(_, _, _)
Sum(c, x, j) == IF j > Len(c.d) THEN 0 ELSE c.w[j] * Num(x[j]) + Sum(c, x, j + 1)
Val(g, v, s) == IF g[s].t # "comp" THEN v[s]
                ELSE LET c == g[s] x == [j \in 1..Len(c.d) |-> Val(g, v, c.d[j])] r == Sum(c, x, 1) % c.m IN
                     IF Fails \in Range(x) THEN Fails ELSE IF NaN \in Range(x) THEN NaN ELSE IF r = c.b THEN Fails ELSE r
\* The atoms below a signal.
RECURSIVE Below(_, _)
Below(g, s) == IF g[s].t # "comp" THEN {s} ELSE UNION {Below(g, g[s].d[j]) : j \in 1..Len(g[s].d)}
Start(g) == [g |-> g, v |-> [s \in 1..Len(g) |-> IF g[s].t = "comp" THEN 0 ELSE g[s].v], subs |-> <<>>, frames |-> <<>>,
             \* changes of the atoms, and their number when each signal was last computed
             chg |-> [s \in 1..Len(g) |-> 0], at |-> [s \in 1..Len(g) |-> -1], bad |-> {}]
RECURSIVE SumChg(_, _)
SumChg(chg, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN chg[x] + SumChg(chg, S \ {x})
Age(m, s) == SumChg(m.chg, Below(m.g, s))

Bad(m, ok, why) == IF ok THEN m ELSE [m EXCEPT !.bad = @ \cup {<<"C15", why>>}]
Sub(m, id, s) == [m EXCEPT !.subs = Append(@, [id |-> id, s |-> s]),
                           !.frames = [j \in 1..Len(@) |-> IF @[j].a \in Below(m.g, s) THEN [@[j] EXCEPT !.new = @ \cup {id}] ELSE @[j]]]
Unsub(m, id) == [m EXCEPT !.subs = SelectSeq(@, LAMBDA x : x.id # id),
                          !.frames = [j \in 1..Len(@) |-> [@[j] EXCEPT !.due = SelectSeq(@, LAMBDA x : x.id # id), !.new = @ \ {id}]]]
\* Assigning y to atom a: what happens until the assignment returns is notifying its subscribers.
Set(m, a, y) == IF m.v[a] = y THEN [m EXCEPT !.frames = Append(@, [a |-> a, from |-> y, to |-> y, due |-> <<>>, told |-> {}, new |-> {}])]
                ELSE [m EXCEPT !.v[a] = y, !.chg[a] = @ + 1,
                               !.frames = Append(@, [a |-> a, from |-> m.v[a], to |-> y, told |-> {}, new |-> {},
                                                     due |-> SelectSeq(m.subs, LAMBDA x : a \in Below(m.g, x.s))])]
\* Subscriber id is notified of a change from x to y.
Plain(m, x) == m.g[x.s].t # "comp"
Told(m, id, x, y) ==
  IF m.frames = <<>> THEN Bad(m, FALSE, "a subscriber is notified without any change")
  ELSE LET k == Len(m.frames) f == m.frames[k]
           ix == {j \in 1..Len(f.due) : f.due[j].id = id}
           j == CHOOSE j \in ix : TRUE
           m1 == [m EXCEPT !.frames[k].told = @ \cup {id}]
       IN IF ix = {} /\ id \notin f.new THEN Bad(m, FALSE, "somebody is notified who does not subscribe to what changed")
          ELSE LET first == id \notin f.told
                   \* someone who subscribed earlier was not told yet
                   early == ix # {} /\ Plain(m, f.due[j]) /\ \E q \in 1..j - 1 : Plain(m, f.due[q]) /\ f.due[q].id \notin f.told
                   s == IF ix # {} THEN f.due[j].s ELSE (CHOOSE x2 \in Range(m.subs) : x2.id = id).s
               IN Bad(Bad(Bad(m1, first \/ m.g[s].t = "comp", "a subscriber is notified twice of one change"), ~early, "subscribers are not notified in the order they subscribed"),
                      x = f.from /\ y = f.to, "a notification names other values")
Done(m) == LET k == Len(m.frames) f == m.frames[k] IN
  Bad([m EXCEPT !.frames = SubSeq(@, 1, k - 1)], \A j \in 1..Len(f.due) : f.due[j].id \in f.told, "a subscriber is not notified of a change")
\* Reading s gave y, having computed the signals cs.
RECURSIVE Computed(_, _)
Computed(m, cs) == IF cs = <<>> THEN m
                   \* what failed may be tried again
                   ELSE Computed(Bad(IF Val(m.g, m.v, cs[1]) = Fails THEN m ELSE [m EXCEPT !.at[cs[1]] = Age(m, cs[1])], m.at[cs[1]] # Age(m, cs[1]), "a value is computed again although nothing it depends on has changed"), Tail(cs))
Read(m, s, y, cs) == Computed(Bad(m, y = Val(m.g, m.v, s), "a read is not the function of the current values"), cs)
=============================================================================
