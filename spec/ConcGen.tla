------------------------------ MODULE ConcGen ------------------------------
(* Draws schedules of concurrent updates of two roots and of the components *)
(* below them. All renders of a root are requested in one way. Troubles:   *)
(* moments at which something throws.                                       *)
EXTENDS TreeGen
CONSTANTS Troubles
Long == {"", "sync", "hand", "user-blocking", "user-visible", "background"}
Opt(z) == [w |-> Pick(Long), tr |-> IF Chance(20) THEN Pick({0, 1}) ELSE -1, dl |-> IF Chance(8) THEN Pick({50, 200}) ELSE -1]
CInit == n = None /\ cur = <<<<>>, <<>>>> /\ script = <<>>
Emitted == Len(script) >= MaxOps
Add(op) == script' = Append(script, op) /\ UNCHANGED n
CRender(r) ==
  \E d0 \in {LET c == cur[r] IN IF c = <<>> \/ Chance(10) THEN RTree(Depth) ELSE Mut(c[1], Depth)} :
  \E d \in {ProperAs(IF r = 2 THEN NoPortals(d0) ELSE d0, IF r = 1 THEN "r" ELSE "q")} :
    cur' = [cur EXCEPT ![r] = <<d>>] /\ Add([op |-> "render", r |-> r, d |-> d])
CStep(x) ==
  CASE x \in 1..7   -> \E r \in {Pick({1, 1, 1, 2})} : CRender(r)
    [] x \in 8..20  -> \E o \in {Opt(x)} : \E j \in {Pick(0..20)} : \E a \in {Pick({"inc", "inc", "set", "force"})} : \E v \in {Pick(0..2)} :
                         Add([op |-> "act", i |-> j, dead |-> Chance(12), a |-> a, v |-> v, o |-> o]) /\ UNCHANGED cur
    [] x \in 41..44 -> \E o \in {Opt(x)} : \E j \in {Pick(0..20)} : \E a \in {Pick({"inc", "inc", "set", "force"})} : \E v \in {Pick(0..2)} :
                         Add([op |-> "at", when |-> Pick({"render", "render", "effect", "cleanup"}), after |-> Pick({0, 0, 1, 2, 3}), i |-> j, dead |-> Chance(12), a |-> a, v |-> v, o |-> o]) /\ UNCHANGED cur
    [] x \in 21..29 -> \E j \in {Pick(0..4)} : Add([op |-> "fire", i |-> j]) /\ UNCHANGED cur
    [] x \in 30..35 -> Add([op |-> "commit"]) /\ UNCHANGED cur
    [] x \in 36..38 -> Add([op |-> "tick"]) /\ UNCHANGED cur
    [] x = 39       -> \E r \in {Pick({1, 2})} : Add([op |-> "unmount", r |-> r]) /\ UNCHANGED cur
    [] x = 40       -> \E j \in {Pick(0..1)} : Add([op |-> "settle", i |-> j]) /\ UNCHANGED cur
    [] OTHER        -> Add([op |-> "at", when |-> Pick(Troubles), after |-> Pick({0, 0, 1, 2, 3, 5}), a |-> "throw"]) /\ UNCHANGED cur
CNext == \/ /\ script = <<>>
            /\ \E w1 \in {Pick(Long)} : \E w2 \in {Pick(Long)} : \E d \in {Proper(RTree(Depth))} :
                  script' = <<[op |-> "ways", w |-> <<w1, w2>>, p |-> IF Troubles = {} THEN "" ELSE IF "render" \in Troubles THEN "C23" ELSE "C26"], [op |-> "render", r |-> 1, d |-> d], [op |-> "settle", i |-> 0]>>
                  /\ cur' = <<<<d>>, <<>>>> /\ UNCHANGED n
         \/ /\ Len(script) \in 1..MaxOps - 1
            /\ \E x \in {Pick(1..IF Troubles = {} THEN 44 ELSE 52)} : CStep(x)
         \/ /\ Len(script) = MaxOps
            /\ PrintT("@@" \o ToJson(script))
            /\ script' = Append(script, [op |-> "end"])
            /\ UNCHANGED <<n, cur>>
=============================================================================
