---------------------------- MODULE RouterTrace -----------------------------
(* Judges recorded results of routers (C19).                                *)
EXTENDS Router, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
Want(t, e) == Route(t.table, e.segs, <<>>)
Check(t, e) ==
  IF e.e # "m" THEN {<<"C19", "unexpected event " \o e.e>>}
  ELSE (IF Want(t, e) = e.got THEN {} ELSE {<<"C19", "not the route and captures", Want(t, e), e.got>>})
       \cup (IF e.ok THEN {} ELSE {<<"C19", "the path was not handed on, or the result not returned">>})
Init == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {}
Next == /\ i < Len(Traces[tr].ev) /\ bad = {}
        /\ i' = i + 1 /\ tr' = tr
        /\ bad' = Check(Traces[tr], Traces[tr].ev[i + 1])
Conforms == bad = {}
Report == [tr |-> tr, i |-> i, bad |-> bad]
=============================================================================
