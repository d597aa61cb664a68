------------------------------- MODULE HostGen -------------------------------
(* Draws requests to the DOM adapter, and what the browser does in between. *)
(* With Small, all sequences of a few requests and browser steps.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps, Small
VARIABLES script
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Prios == {"user-blocking", "user-visible", "background", ""}
Outcomes == {"ok", "ok", "ok", "async", "asyncfail", "throw"}
Discrete == {"click", "dblclick", "keydown", "keyup", "input", "change", "submit", "focusin", "focusout", "pointerdown", "pointerup", "mousedown", "mouseup",
             "touchstart", "touchend", "drop", "dragstart", "dragend", "contextmenu", "copy", "paste", "beforeinput", "compositionend"}
Continuous == {"drag", "dragenter", "dragleave", "dragover", "mouseenter", "mouseleave", "mousemove", "mouseout", "mouseover", "pointerenter", "pointerleave",
               "pointermove", "pointerout", "pointerover", "scroll", "touchmove", "wheel"}
Config(z) == [op |-> "config", task |-> Chance(33), idle |-> Chance(60), frames |-> Chance(70)]
Op(z) == LET x == Pick(1..40) IN
  CASE x \in 1..8   -> [op |-> "callback", prio |-> Pick(Prios), delay |-> IF Chance(75) THEN 0 ELSE Pick({5, 40, 150}), does |-> Pick(Outcomes), bare |-> Chance(10)]
    [] x \in 9..11  -> [op |-> "commit", does |-> Pick({"ok", "ok", "ok", "throw"})]
    [] x \in 12..14 -> [op |-> "update", prio |-> Pick(Prios), delay |-> IF Chance(80) THEN 0 ELSE Pick({20, 150}), sync |-> Chance(10), trans |-> IF Chance(80) THEN -1 ELSE Pick({0, 1, 7}), inside |-> Pick({"none", "none", "none"} \cup {"click", "scroll"})]
    [] x \in 15..17 -> [op |-> "priority", inside |-> IF Chance(25) THEN "none" ELSE IF Chance(50) THEN Pick(Discrete) ELSE Pick(Continuous), ready |-> Pick({"complete", "complete", "loading", "interactive"}), doc |-> Chance(90)]
    [] x \in 18..20 -> [op |-> "task"]
    [] x \in 21..23 -> [op |-> "message"]
    [] x \in 24..26 -> [op |-> "idle"]
    [] x \in 27..31 -> [op |-> "time", ms |-> Pick({0, 1, 1, 4, 16, 16, 60, 100})]
    [] x \in 32..35 -> [op |-> "frame"]
    [] x = 36       -> [op |-> "drain"]
    [] OTHER        -> [op |-> "tick"]
SmallOps == [op : {"callback"}, prio : Prios, delay : {0}, does : {"ok"}, bare : {FALSE}]
  \cup {[op |-> "callback", prio |-> "user-visible", delay |-> 40, does |-> "ok", bare |-> FALSE]}
  \cup [op : {"commit"}, does : {"ok"}]
  \cup {[op |-> "task"], [op |-> "message"], [op |-> "idle"], [op |-> "time", ms |-> 0], [op |-> "time", ms |-> 1], [op |-> "time", ms |-> 100], [op |-> "frame"]}
Configs == [op : {"config"}, task : BOOLEAN, idle : BOOLEAN, frames : BOOLEAN]
Init == script = <<>>
Done == /\ Len(script) = MaxOps
        /\ PrintT("@@" \o ToJson(script))
        /\ script' = Append(script, [op |-> "end"])
Draw == IF script = <<>> THEN \E c \in {Config(0)} : script' = <<c>>
        ELSE \E op \in {Op(Len(script))} : script' = Append(script, op)
All == IF script = <<>> THEN \E c \in Configs : script' = <<c>>
       ELSE \E op \in SmallOps : script' = Append(script, op)
Next == Done \/ (Len(script) < MaxOps /\ IF Small THEN All ELSE Draw)
=============================================================================
