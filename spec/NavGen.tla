------------------------------- MODULE NavGen -------------------------------
(* Draws navigations, listeners and synchronized components.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps
VARIABLES script
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Urls == {"/a?q#h", "/a?q#g", "/a?q#", "/a?q", "/b", "/b#h", "/c?x=1#y", "#z", "#z#w", "#h", "?q2", "/m"}
States == {"s1", "s2", "undefined"}
Item(k) == [k |-> k, ad |-> Pick({1, 1, 2, 2, 3, 3}), how |-> Pick({"", "", "own", "skip", "scroll"})]
RList(z) == Pick({<<"a">>, <<"a">>, <<"a", "b">>, <<"b", "a">>, <<"b">>, <<>>})
Op(z) == LET x == Pick(1..32) IN
  CASE x \in 1..4   -> [op |-> "listen", ad |-> Pick(1..3), does |-> Pick({"none", "go", "go", "wait", "wait", "fail", "stop"}), j |-> Pick(1..6)]
    [] x \in 5..6   -> [op |-> "quit", j |-> Pick(0..5)]
    [] x \in 7..10  -> [op |-> "event", url |-> Pick(Urls), can |-> Chance(85), same |-> Chance(85), dl |-> IF Chance(85) THEN "no" ELSE Pick({"", "f.zip"}), state |-> Pick(States), type |-> Pick({"push", "replace", "traverse", "reload"})]
    [] x \in 11..15 -> LET ad == Pick({1, 2, 3, 3}) IN [op |-> "nav", ad |-> ad, url |-> IF ad = 2 THEN Pick({"h", "g", "z", "/x/y", "g#h", ""}) ELSE Pick(Urls), bare |-> Chance(15), state |-> Pick({"s1", "s2"}), history |-> Pick({"", "", "push", "replace", "auto"})]
    [] x \in 16..17 -> [op |-> "release", j |-> Pick(0..3)]
    [] x = 18       -> [op |-> "where", ad |-> Pick(1..3)]
    [] x \in 19..21 -> LET ks == RList(z) IN [op |-> "render", list |-> [i \in 1..Len(ks) |-> Item(ks[i])]]
    [] x \in 22..25 -> [op |-> "fire", j |-> Pick(0..3)]
    [] x \in 26..28 -> [op |-> "commit"]
    [] x \in 29..30 -> [op |-> "tick"]
    [] OTHER        -> [op |-> "settle", j |-> Pick(0..1)]
Init == script = <<>>
Next == \/ /\ Len(script) < MaxOps
           /\ \E op \in {Op(Len(script))} : script' = Append(script, op)
        \/ /\ Len(script) = MaxOps
           /\ PrintT("@@" \o ToJson(script))
           /\ script' = Append(script, [op |-> "end"])
=============================================================================
