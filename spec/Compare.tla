------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* Props (C25): a component that is rendered by its parent is rendered     *)
(* again exactly if its props are not equal to those it was rendered with, *)
(* in the eyes of its arePropsEqual: Object.is, shallowEqual and           *)
(* sequentialEqual, with Object.is and with ===, and others.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Simulated
Pick(S) == RandomElement(S)
Range(s) == {s[j] : j \in 1..Len(s)}
\* Values: undefined, NaN, 0, -0, two objects, and what all objects inherit as toString.
\* Props: sequences of [k key, v]; keys are "" in lists. Those of "^a" are inherited, as a, and do not count.
Vals == {"u", "n", "z", "m", "o", "p"}
P(k, v) == [k |-> k, v |-> v]
Objects == {<<>>} \cup {<<P(k, v)>> : k \in {"a", "b"}, v \in Vals} \cup {<<P(ks[1], v), P(ks[2], w)>> : ks \in {<<"a", "b">>, <<"b", "a">>, <<"a", "c">>}, v \in {"u", "n", "o", "z"}, w \in {"u", "m", "o"}}
Odd == {<<P("toString", "t")>>, <<P("toString", "u")>>, <<P("a", "o"), P("toString", "t")>>, <<P("b", "o"), P("^a", "o")>>, <<P("b", "z"), P("^a", "z")>>, <<P("^a", "o")>>}
Lists == {<<>>} \cup {<<P("", v)>> : v \in Vals} \cup {<<P("", v), P("", w)>> : v \in Vals, w \in Vals}
Listed(eq) == eq \in {"seq", "seq="}
Dom(eq) == IF Listed(eq) THEN Lists ELSE Objects \cup Odd
Own(x) == SelectSeq(x, LAMBDA q : q.k # "^a")
Eqs == {"is", "shallow", "shallow=", "seq", "seq=", "size", "always"}

Same(v, w) == v = w
Strict(v, w) == (v = w /\ v # "n") \/ {v, w} = {"z", "m"}
Keys(x) == {x[j].k : j \in 1..Len(x)}
At(x, k) == x[CHOOSE j \in 1..Len(x) : x[j].k = k].v
Shallow(E(_, _), x, y) == Keys(x) = Keys(y) /\ \A k \in Keys(x) : E(At(x, k), At(y, k))
Sequential(E(_, _), x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : E(x[j].v, y[j].v)
\* same: it is the very same object.
Equal(eq, x, y, same) ==
  same \/ CASE eq = "is" -> FALSE [] eq = "shallow" -> Shallow(Same, x, y) [] eq = "shallow=" -> Shallow(Strict, x, y)
            [] eq = "seq" -> Sequential(Same, x, y) [] eq = "seq=" -> Sequential(Strict, x, y)
            [] eq = "size" -> Len(x) <= Len(y) [] OTHER -> TRUE

VARIABLES out, tr, i, m
\* Steps: props x; same: pass the object of the previous step again (x is the same, then); st: a state is set, too.
Step(x, same, st) == [x |-> x, same |-> same, st |-> st]
GInit == out = <<>> /\ tr = 0 /\ i = 0 /\ m = 0
Emit(eq, steps) == PrintT("@@" \o ToJson([eq |-> eq, steps |-> steps]))
GNext ==
  /\ UNCHANGED <<tr, i, m>>
  /\ IF Simulated
     THEN \/ /\ out = <<>> /\ \E eq \in {Pick(Eqs)} : out' = <<eq>>
          \/ /\ Len(out) \in 1..10
             /\ \E x \in {Pick(Dom(out[1]))}, c \in {Pick(1..15)}, st \in {Pick(1..4) = 1} :
                  LET n == Len(out) same == n > 1 /\ c <= 3 IN out' = Append(out, Step(IF n > 1 /\ c <= 7 THEN out[n].x ELSE x, same, st))
          \/ /\ Len(out) = 11 /\ Emit(out[1], Tail(out)) /\ out' = Append(out, 0)
     ELSE /\ out = <<>>
          /\ \E eq \in Eqs : \E x \in Dom(eq) : \E y \in Dom(eq) : Emit(eq, <<Step(x, FALSE, FALSE), Step(y, FALSE, FALSE), Step(y, TRUE, FALSE)>>) /\ out' = <<eq, x, y>>

\* Judging: event [x, same, st, n renders of the component, shown (the props it shows), by ("new" if the object passed was rendered), got and set (the state shown and set)].
Traces == ndJsonDeserialize(IOEnv.TRACES)
Bad(mm, ok, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<"C25", why>>}]
\* was: the props of the last render, and the steps that passed that very object.
MInit == [first |-> TRUE, was |-> <<>>, at |-> 0, now |-> 0, bad |-> {}]
On(mm, eq, e) ==
  LET x == Own(e.x)
      at == IF e.same THEN mm.now ELSE mm.now + 1 \* which object is passed
      eqv == ~mm.first /\ Equal(eq, mm.was, x, at = mm.at)
      m1 == Bad(mm, eqv \/ (e.n > 0 /\ e.shown = x), "a component was not rendered with new props")
      m2 == Bad(m1, ~eqv \/ e.st \/ (e.n = 0 /\ e.shown = mm.was), "a component was rendered again though its props are equal")
      m3 == Bad(m2, e.shown \in {mm.was, x}, "a component shows other props")
      m4 == Bad(m3, e.got = e.set, "a component does not show its state")
  IN [m4 EXCEPT !.first = FALSE, !.was = e.shown, !.now = at, !.at = IF e.by = "new" THEN at ELSE @]
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MInit /\ out = <<>>
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {} /\ i' = i + 1 /\ UNCHANGED <<tr, out>>
        /\ m' = LET e == Traces[tr].ev[i + 1] IN IF e.e = "step" THEN On(m, Traces[tr].eq, e) ELSE [m EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
