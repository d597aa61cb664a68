------------------------------- MODULE AuxGen -------------------------------
(* Draws schedules for components with the auxiliary hooks.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps
\* src: the source given last to each key; sources only grow.
VARIABLES script, src
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
O(z) == LET x == Pick(1..7) IN [w |-> CASE x <= 2 -> "sync" [] x = 3 -> "hand" [] x = 4 -> "user-blocking" [] x = 5 -> "user-visible" [] x = 6 -> "background" [] OTHER -> ""]
RDeps(z) == LET n == Pick({0, 1, 1, 1, 2}) IN [i \in 1..n |-> Pick(0..5)]
Item(k, v, init, w) == [k |-> k, v |-> v, init |-> init, way |-> w, fn |-> Pick({0, 0, 1, 2}), ref |-> LET r == Pick(1..9) IN IF r <= 4 THEN "S" ELSE Pick({"A", "B", "F", "G", ""}), deps |-> RDeps(v), nodeps |-> Chance(20)]
RList(z) == Pick({<<"a">>, <<"a">>, <<"a", "b">>, <<"b", "a">>, <<"b">>, <<>>})
Tr(z) == [op |-> "start", k |-> Pick({"a", "a", "b"}), how |-> Pick({"sync", "sync", "throw", "async", "async", "fail"}), n |-> Pick(0..2), o |-> Chance(40), gone |-> Chance(20)]
Op(z) == LET x == Pick(1..40) IN
  CASE x \in 7..12  -> Tr(z)
    [] x \in 13..16 -> [op |-> "end", i |-> Pick(0..2)]
    [] x \in 17..18 -> [op |-> "call", k |-> Pick({"a", "b"})]
    [] x \in 19..20 -> [op |-> "force", k |-> Pick({"a", "b"}), o |-> O(z)]
    [] x \in 21..28 -> [op |-> "fire", i |-> Pick(0..5)]
    [] x \in 29..33 -> [op |-> "commit"]
    [] x \in 34..38 -> [op |-> "tick"]
    [] x \in 39..40 -> [op |-> "settle", i |-> Pick(0..1)]
    [] OTHER        -> [op |-> "tick"]
Init == script = <<>> /\ src = [k \in {"a", "b"} |-> 10]
Render == \E ks \in {RList(src)} : \E up \in {[k \in {"a", "b"} |-> src[k] + Pick({0, 0, 1, 1, 2})]} :
            /\ src' = up
            /\ \E op \in {[op |-> "render", list |-> [i \in 1..Len(ks) |-> Item(ks[i], up[ks[i]], IF Chance(30) THEN Pick(1..4) ELSE 0, Pick({"", "", "background", "user-blocking", "delay"}))],
                           o |-> IF script = <<>> THEN O(up) ELSE script[1].o]} : script' = Append(script, op)
Next == \/ Len(script) < MaxOps /\ Render
        \/ Len(script) < MaxOps /\ script # <<>> /\ (\E op \in {Op(Len(script))} : "op" \in DOMAIN op /\ script' = Append(script, op)) /\ UNCHANGED src
        \/ Len(script) < MaxOps /\ script # <<>> /\ (\E op \in {Op(Len(script) + 100)} : "op" \in DOMAIN op /\ script' = Append(script, op)) /\ UNCHANGED src
        \/ Len(script) < MaxOps /\ script # <<>> /\ (\E op \in {Op(Len(script) + 200)} : "op" \in DOMAIN op /\ script' = Append(script, op)) /\ UNCHANGED src
        \/ Len(script) < MaxOps /\ script # <<>> /\ (\E op \in {Op(Len(script) + 300)} : "op" \in DOMAIN op /\ script' = Append(script, op)) /\ UNCHANGED src
        \/ /\ Len(script) = MaxOps
           /\ PrintT("@@" \o ToJson(script))
           /\ script' = Append(script, [op |-> "end"]) /\ UNCHANGED src
=============================================================================
