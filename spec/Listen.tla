------------------------------- MODULE Listen -------------------------------
(***************************************************************************)
(* Listeners and element references (C13). A hole holds a sequence of      *)
(* values, one for a plain value. An event calls every listener of the     *)
(* hole once, in its phase; a reference is set and cleaned up whenever the *)
(* value at its position changes.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Kinds, MaxLen, Simulated
Range(s) == {s[j] : j \in 1..Len(s)}
\* What is bound: !, !o: what is neither a listener nor a reference, which is reported and bound to nothing; names of listeners; l1, l2: functions; a, b: objects, with options c (capture), o (once), p (passive), s (an abort signal)
One(x) == [arr |-> FALSE, xs |-> <<x>>]
Arr(xs) == [arr |-> TRUE, xs |-> xs]
Events == {One(x) : x \in {"", "l1", "l2", "a", "ac", "bc", "ap", "bp", "ao", "bo", "aco", "as1", "bs1", "as2"}}
          \cup {Arr(<<>>), Arr(<<"l1">>), Arr(<<"l1", "l2">>), Arr(<<"l2", "l1", "ac">>), Arr(<<"ac", "", "l2">>), Arr(<<"bo", "ap">>), Arr(<<"as1", "as2">>), Arr(<<"as2", "l1", "bs1">>)}
          \cup {One("!"), One("!o"), Arr(<<"l1", "!">>), Arr(<<"!o", "ac">>), Arr(<<"bo", "!", "l2">>)}
Refs == {One(x) : x \in {"", "f1", "f2", "n1", "R1", "R2"}}
        \cup {Arr(<<>>), Arr(<<"f1">>), Arr(<<"f1", "f2">>), Arr(<<"f2", "f1", "R1">>), Arr(<<"n1", "", "f2">>), Arr(<<"R1", "R2">>)}
        \cup {One("!"), One("!o"), Arr(<<"f1", "!">>), Arr(<<"!o", "R1">>), Arr(<<"f2", "!", "n1">>), Arr(<<"R2", "R1">>), Arr(<<"R1", "f1", "R1">>), Arr(<<"", "R1">>)}
Wrong(x) == x \in {"!", "!o"}
Opts(x) == CASE x \in {"l1", "l2", "a"} -> "" [] x \in {"ac", "bc"} -> "c" [] x \in {"ap", "bp"} -> "p" [] x \in {"ao", "bo"} -> "o" [] x \in {"as1", "bs1"} -> "s1" [] x = "as2" -> "s2" [] x = "aco" -> "co" [] OTHER -> "-"
Once(x) == Opts(x) \in {"o", "co"}
Capture(x) == Opts(x) \in {"c", "co"}
Signal(x) == IF Opts(x) \in {"s1", "s2"} THEN {Opts(x)} ELSE {}
Passive(x) == Opts(x) = "p"
Steps(k) == {[op |-> "set", v |-> v] : v \in IF k = "event" THEN Events ELSE Refs} \cup {[op |-> "drop", v |-> Arr(<<>>)]}

VARIABLES kind, script
GInit == kind \in Kinds /\ script = <<>>
GNext == /\ kind' = kind
         /\ \/ /\ Len(script) < MaxLen
               /\ IF Simulated THEN \E st \in {RandomElement(Steps(kind))} : \E f \in {RandomElement(0..2)} : \E ab \in {RandomElement({"", "", "", "", "s1", "s2"})} : script' = Append(script, st @@ [fires |-> f, abort |-> ab])
                  ELSE \E st \in Steps(kind) : script' = Append(script, st @@ [fires |-> 2, abort |-> ""])
            \/ /\ Len(script) = MaxLen
               /\ PrintT("@@" \o ToJson([kind |-> kind, steps |-> script]))
               /\ script' = Append(script, <<>>)
=============================================================================
