------------------------------ MODULE HooksGen ------------------------------
(* Draws schedules for components with one hook of each kind.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps, Wrong
VARIABLES script
\* Random operators take an argument, as TLC evaluates constants once.
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Ways == {"", "sync", "sync", "hand", "user-blocking", "user-visible", "background"}
RO(z) == [w |-> Pick(Ways), tr |-> IF Chance(30) THEN Pick({0, 1, 1, 24}) ELSE -1, dl |-> IF Chance(12) THEN Pick({50, 200}) ELSE -1]
\* Roots are requested at one priority of a script each time, or synchronously.
RDeps(z) == LET k == Pick({0, 1, 1, 1, 2, 2, 3}) IN [i \in 1..k |-> Pick(1..7)]
Item(z, k) == [k |-> k, deps |-> RDeps(z), eff |-> Pick({"deps", "deps", "none", "null"}), ord |-> IF Wrong /\ Chance(12) THEN Pick({"swap", "fewer", "more", "skip", "boom", "boom"}) ELSE "", rv |-> Pick(1..2), kid |-> Chance(30), cl |-> Chance(75), iv |-> Pick({0, 0, 201, 202})]
RList(z) == Pick({<<"a">>, <<"a">>, <<"a", "b">>, <<"a", "b">>, <<"b", "a">>, <<"b">>, <<>>})
Render(z) == LET ks == RList(z) IN [op |-> "render", list |-> [i \in 1..Len(ks) |-> Item(z, ks[i])], o |-> RO(z)]
Disp(z) == [op |-> "disp", k |-> Pick({"a", "a", "a", "b", "d"}), h |-> Pick({"r", "r", "s", "s", "p"}), a |-> Pick({"app", "app", "app", "set", "nop", "clr"}),
         v |-> Pick(100..102), o |-> RO(z),
         tr |-> Chance(12), eq |-> IF Chance(20) THEN Pick({"len", "never", "always"}) ELSE ""]
At(z) == LET d == Disp(z) IN [op |-> "at", k |-> d.k, h |-> d.h, a |-> d.a, v |-> d.v, o |-> d.o, tr |-> d.tr, eq |-> d.eq, at |-> Pick({"a", "a", "b", "d"}), when |-> Pick({"render", "late", "effect", "cleanup", "removal"})]
Op(z) == LET x == Pick(1..36) IN
  CASE x \in 1..4   -> Render(z)
    [] x \in 5..14  -> Disp(z)
    [] x \in 15..16 -> [op |-> "force", k |-> Pick({"a", "b", "d"}), o |-> RO(z)]
    [] x \in 17..23 -> [op |-> "fire", i |-> Pick(0..5)]
    [] x \in 24..27 -> [op |-> "commit"]
    [] x \in 28..30 -> [op |-> "tick"]
    [] x = 31       -> [op |-> "settle", i |-> Pick(0..1)]
    [] x \in 33..36 -> At(z)
    [] OTHER        -> [op |-> "trans", k |-> Pick({"a", "b"})]
First(z) == [Render(z) EXCEPT !.list = <<[Item(z, "a") EXCEPT !.ord = ""], [Item(z, "b") EXCEPT !.ord = ""]>>]
\* What failed is often requested again, as it should have been.
Failing(op) == op.op = "render" /\ \E i \in 1..Len(op.list) : op.list[i].ord # ""
Right(op) == [op EXCEPT !.list = [i \in 1..Len(op.list) |-> [op.list[i] EXCEPT !.ord = ""]]]
Then(sc) == LET l == Len(sc) IN
  IF Failing(sc[l]) /\ Chance(60) THEN [op |-> "settle", i |-> 0]
  ELSE IF l > 1 /\ sc[l].op = "settle" /\ Failing(sc[l - 1]) /\ Chance(60) THEN Right(sc[l - 1])
  ELSE Op(l)
Init == script = <<>>
Next == \/ /\ script = <<>>
           /\ \E op \in {First(Len(script))} : script' = <<op, [op |-> "settle", i |-> 0]>>
        \/ /\ Len(script) \in 1..MaxOps - 1
           /\ \E op \in {Then(script)} : script' = Append(script, op)
        \/ /\ Len(script) = MaxOps
           /\ PrintT("@@" \o ToJson(script))
           /\ script' = Append(script, [op |-> "end"])
=============================================================================
