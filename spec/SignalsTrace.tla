---------------------------- MODULE SignalsTrace ----------------------------
(* Judges recorded operations on signals.                                   *)
EXTENDS Signals
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
Init == tr \in 1..Len(Traces) /\ i = 0 /\ m = Start(Traces[tr].g)
On(e) == CASE e.e = "read" -> Read(m, e.s, e.y, e.cs)
           [] e.e = "set" -> Set(m, e.s, e.y)
           [] e.e = "done" -> Done(m)
           [] e.e = "sub" -> Sub(m, e.id, e.s)
           [] e.e = "unsub" -> Unsub(m, e.id)
           [] e.e = "told" -> Told(m, e.id, e.x, e.y)
           [] OTHER -> [m EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
Next == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
        /\ i' = i + 1 /\ tr' = tr /\ m' = On(Traces[tr].ev[i + 1])
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
