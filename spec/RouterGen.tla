----------------------------- MODULE RouterGen ------------------------------
(* Draws route tables and paths for them.                                   *)
EXTENDS Router, Json, IOUtils
VARIABLES done
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
P0(t, v, w) == [t |-> t, v |-> v, w |-> w]
LitToKey(p) == IF p.t = "str" THEN [p EXCEPT !.t = "key"] ELSE p
RECURSIVE RPat(_)
RPat(z) == LET x == Pick(1..17) IN
  CASE x <= 5 -> P0("str", Pick({"a", "a", "b", "", "1"}), "")
    [] x = 6  -> P0("key", Pick({"a", "b", "x1", ""}), "")
    [] x \in 7..8 -> P0("int", "", "")
    [] x = 9  -> P0("enc", "", "")
    [] x = 10 -> P0("dec", "", "")
    [] x \in 11..12 -> P0("re", "", "")
    [] x = 13 -> P0("own", "", "")
    [] x = 14 -> IF z > 2 THEN P0("int", "", "") ELSE P0("or", LitToKey(RPat(z + 1)), LitToKey(RPat(z + 1)))
    [] x = 15 -> IF z > 2 THEN P0("re", "", "") ELSE P0("sel", LitToKey(RPat(z + 1)), "")
    [] x = 16 -> IF z > 2 THEN P0("own", "", "") ELSE P0("low", LitToKey(RPat(z + 1)), "")
    [] OTHER  -> P0("str", "a", "")
RPats(z) == LET n == Pick({0, 1, 1, 1, 1, 2, 2, 3}) IN [k \in 1..n |-> RPat(0)]
RECURSIVE RRoutes(_, _, _)
RRoutes(depth, id, max) == LET n == Pick(1..max) IN
  [k \in 1..n |-> [id |-> id * 10 + k, ps |-> RPats(k), res |-> Chance(85), ch |-> IF depth > 0 /\ Chance(50) THEN RRoutes(depth - 1, id * 10 + k, 3) ELSE <<>>]]
\* A segment that a pattern is likely to match.
RSeg(p) == LET x == Pick(1..10) IN
  CASE x = 1 -> Pick(Segs)
    [] p.t \in {"str", "key"} -> p.v
    [] p.t = "int" -> Pick({"1", "-7", "0", "01", "-0", "NaN", "Infinity", "1e3", "0x1"})
    [] p.t = "re"  -> Pick({"x", "x1"})
    [] p.t = "dec" -> Pick({"%61", "a%2Fb", "1", "%2561", "%C3%A9"})
    [] OTHER -> Pick(Segs)
RECURSIVE RPath(_, _)
RPath(routes, n) ==
  IF Len(routes) = 0 \/ n = 0 THEN <<>>
  ELSE LET r == routes[Pick(1..Len(routes))] s == [k \in 1..Len(r.ps) |-> RSeg(r.ps[k])]
       IN IF Chance(30) THEN s ELSE s \o RPath(r.ch, n - 1)
Odd(s) == LET x == Pick(1..12) IN CASE x = 1 -> Append(s, Pick(Segs)) [] x = 2 -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1) [] x = 3 -> Append(s, "") [] OTHER -> s
Ask(table, k) == LET s == Odd(RPath(table, 4)) IN [segs |-> IF s = <<>> THEN <<Pick(Segs)>> ELSE s, lead |-> Chance(60)]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \E table \in {RRoutes(3, 0, 4)} : PrintT("@@" \o ToJson([table |-> table, asks |-> [k \in 1..12 |-> Ask(table, k)]]))
=============================================================================
