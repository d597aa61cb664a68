------------------------------ MODULE SyncGen -------------------------------
(* Draws schedules for components that use signals and stores.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps
VARIABLES script
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
RO(z) == [w |-> Pick({"", "sync", "sync2", "hand", "user-blocking", "user-visible", "background"})]
O(z) == LET o == RO(z) IN IF o.w = "sync2" THEN [w |-> "sync"] ELSE o
KindOf(k) == CASE k \in {"p", "q"} -> "use" [] k = "r" -> "sel" [] k = "v" -> "store" [] k = "w" -> "inline" [] k \in {"m", "n"} -> "own" [] OTHER -> "child"
Item(z, k) == LET kind == KindOf(k) IN
  [k |-> k, kind |-> kind, src |-> IF kind \in {"store", "inline"} THEN Pick({"s", "s", "t"}) ELSE Pick({"a", "b", "c", "d", "n", "par", "sum", "deep", "flaky"}), init |-> Pick(0..2)]
RList(z) == LET n == Pick(1..24) IN
  CASE n = 1 -> <<>>
    [] n = 2 -> <<"p">>
    [] n = 3 -> <<"p", "q">>
    [] n = 4 -> <<"q", "p">>
    [] n = 5 -> <<"v">>
    [] n = 6 -> <<"w">>
    [] n = 7 -> <<"w", "v">>
    [] n = 8 -> <<"v", "w">>
    [] n = 9 -> <<"r", "x">>
    [] n = 10 -> <<"x">>
    [] n = 11 -> <<"x", "r", "y">>
    [] n = 12 -> <<"p", "v">>
    [] n = 13 -> <<"v", "p", "x">>
    [] n = 14 -> <<"p", "r", "w">>
    [] n = 15 -> <<"q">>
    [] n = 16 -> <<"r">>
    [] n = 17 -> <<"q", "r", "v", "w">>
    [] n = 18 -> <<"y", "q">>
    [] n = 20 -> <<"m">>
    [] n = 21 -> <<"m", "n">>
    [] n = 22 -> <<"n", "p", "m">>
    [] n = 23 -> <<"x", "n">>
    [] n = 19 -> <<"p", "q", "r", "v", "w", "x">>
    [] OTHER -> <<"w", "x", "q", "v", "p", "r">>
\* All renders of the root are requested the same way.
Render(z) == LET ks == RList(z) IN [op |-> "render", list |-> [i \in 1..Len(ks) |-> Item(z, ks[i])], o |-> IF script = <<>> THEN O(z) ELSE script[1].o]
Base(z) == Pick({"a", "a", "b", "c", "d", "s", "s", "t"})
Chg(z, op) == [op |-> op, b |-> Pick({"a", "b", "c", "d", "n", "s", "t"}), v |-> Pick(0..3), how |-> Pick({"", "draft"})]
At(z) == LET c == Chg(z, "at") IN [op |-> "at", b |-> c.b, v |-> c.v, how |-> c.how, when |-> Pick({"render", "late", "effect", "after", "cleanup"}), k |-> Pick({"p", "q", "r", "v", "w", "x"})]
Op(z) == LET x == Pick(1..37) IN
  CASE x \in 1..4   -> Render(z)
    [] x \in 5..12  -> Chg(z, "chg")
    [] x \in 13..14 -> Chg(z, "gap")
    [] x \in 15..17 -> At(z)
    [] x = 18       -> [op |-> "force", k |-> Pick({"p", "q", "r", "v", "w", "m"}), o |-> O(z)]
    [] x \in 19..24 -> [op |-> "fire", i |-> Pick(0..5)]
    [] x \in 25..29 -> [op |-> "commit"]
    [] x \in 30..32 -> [op |-> "tick"]
    [] x \in 36..37 -> [op |-> "own", k |-> Pick({"m", "n"}), v |-> Pick(0..2)]
    [] x = 33       -> [op |-> "blip", v |-> Pick(0..3)]
    [] OTHER        -> [op |-> "settle", i |-> Pick(0..1)]
Init == script = <<>>
Next == \/ /\ Len(script) < MaxOps
           /\ \E op \in {IF script = <<>> THEN Render(0) ELSE Op(Len(script))} : script' = Append(script, op)
        \/ /\ Len(script) = MaxOps
           /\ PrintT("@@" \o ToJson(script))
           /\ script' = Append(script, [op |-> "end"])
=============================================================================
