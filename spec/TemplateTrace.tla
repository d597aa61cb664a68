---------------------------- MODULE TemplateTrace ----------------------------
(* Judges what templates show: event [vs1, vs2, dom1, dom2]: the versions   *)
(* of the values of two roots (<<>> before the first render), and their DOM.*)
EXTENDS Template
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
Obs(x) == [d |-> x.d, t |-> x.t, n |-> x.n, ns |-> x.ns, at |-> Range(x.at), pr |-> Range(x.pr), ev |-> Range(x.ev), rf |-> x.rf]
Want(h, vs) == DomOf(h, 1, 0, vs, 0)
Init == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Next == LET t == Traces[tr] IN
  /\ i < Len(t.ev) /\ bad = {}
  /\ i' = i + 1 /\ tr' = tr
  /\ bad' = LET e == t.ev[i + 1] IN
       IF e.e = "bad" THEN IF e.err = "DOMAdapterError" THEN {} ELSE {<<"C14", "holes that cannot be bound are not reported">>}
       ELSE IF e.e # "shown" THEN {<<"ALL", "unexpected event " \o e.e>>}
       ELSE (IF [j \in 1..Len(e.dom1) |-> Obs(e.dom1[j])] = (IF e.n1 = 0 THEN <<>> ELSE Want(t.h, e.vs1)) THEN {} ELSE {<<"C14", "a template does not show its values in their places">>})
            \cup (IF [j \in 1..Len(e.dom2) |-> Obs(e.dom2[j])] = (IF e.n2 = 0 THEN <<>> ELSE Want(t.h, e.vs2)) THEN {} ELSE {<<"C14", "a copy of a template does not show its own values">>})
BadNow == {b \in bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
