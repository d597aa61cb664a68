----------------------------- MODULE SignalsGen -----------------------------
(* Draws signal graphs, operations on them, and what subscribers do.        *)
EXTENDS Signals
CONSTANTS MaxOps
VARIABLES out
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
G0 == [t |-> "atom", v |-> 0, d |-> <<>>, w |-> <<>>, m |-> 2, b |-> -1]
RECURSIVE Graph(_, _, _)
Graph(g, na, n) ==
  IF Len(g) = n THEN g
  ELSE \* one more signal
       LET x == IF Len(g) < na THEN [G0 EXCEPT !.t = Pick({"atom", "atom", "acc"}), !.v = Pick(0..2)]
                ELSE LET k == Pick({0, 1, 1, 2, 2, 3}) IN
                     [G0 EXCEPT !.t = "comp", !.d = [j \in 1..k |-> Pick({Pick(1..Len(g)), Pick((IF Len(g) > 2 THEN Len(g) - 1 ELSE 1)..Len(g))})],
                                !.w = [j \in 1..k |-> Pick(1..3)], !.m = Pick({2, 3, 7}), !.b = IF Chance(20) THEN Pick(0..2) ELSE -1]
       IN Graph(Append(g, x), na, n)
\* An operation; subscriptions are numbered by their order, id 0 is the subscriber itself; r: what a new subscriber does, and up to how many times.
RECURSIVE Op(_, _, _)
Op(deep, g, na) ==
  LET s == Pick(1..Len(g)) x == Pick(1..12)
      o == [op |-> "read", s |-> s, y |-> 0, id |-> 0, n |-> 0, r |-> <<>>]
  IN CASE x \in 1..4 -> [o EXCEPT !.op = "set", !.s = Pick(1..na), !.y = IF Chance(12) THEN Pick({NaN, NaN, MinusZero}) ELSE Pick(0..2)]
       [] x \in 5..7 -> o
       [] x \in 8..10 -> [o EXCEPT !.op = "sub", !.s = IF Chance(60) THEN Pick(1..na) ELSE s, !.n = Pick(1..3),
                                   !.r = IF deep = 0 THEN <<>> ELSE [j \in 1..Pick({0, 0, 1, 1, 2, 3}) |-> Op(deep - 1, g, na)]]
       [] OTHER -> [o EXCEPT !.op = "unsub", !.id = IF deep < 2 THEN Pick(0..8) ELSE Pick(1..8)]
Init == out = 0
Next == /\ out = 0 /\ out' = 1
        /\ \E na \in {Pick(1..3)} : \E n \in {Pick(0..4)} : \E g \in {Graph(<<>>, na, na + n)} :
           \E ops \in {[j \in 1..Pick(4..MaxOps) |-> Op(2, g, na)]} :
              PrintT("@@" \o ToJson([g |-> g, ops |-> ops]))
=============================================================================
