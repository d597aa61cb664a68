----------------------------- MODULE SchedTrace -----------------------------
(* Judges recorded executions with SchedMon. *)
EXTENDS SchedMon, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = MonInit
Next == /\ i < Len(Traces[tr].ev)
        /\ i' = i + 1 /\ tr' = tr
        /\ m' = MonStep(m, Traces[tr].ev[i + 1])
\* With add-ons, all else happens as without them.
Same(t) == "base" \in DOMAIN t => SelectSeq(t.ev, LAMBDA e : e.e \notin {"addons", "rep"}) = t.base
Differs == i = Len(Traces[tr].ev) /\ IOEnv.PROP = "C21" /\ ~Same(Traces[tr])
Bad == (IF Differs THEN {<<"C21", "add-ons change what happens">>} ELSE {}) \cup {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"}}
Conforms == Bad = {}
Report == [tr |-> tr, i |-> i, bad |-> Bad]
=============================================================================
