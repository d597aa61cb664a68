----------------------------- MODULE BindTrace -----------------------------
(* Judges recorded bindings: after each step the element is as expected.    *)
EXTENDS Bindings
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
\* v: value last bound (0: no element); user: the user changed the property; extra: the user added a class or style.
TInit0 == [v |-> 0, user |-> FALSE, extra |-> FALSE, bad |-> {}]
Bad(mm, ok, prop, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<prop, why>>}]
MonStep(mm, k, e) ==
  LET st == e.st
      fresh == mm.v = 0
      chg == fresh \/ Vals(k)[mm.v].js # Vals(k)[st.v].js
      \* what is expected after a value was bound
      user == mm.user /\ k = "prop" /\ ~chg
      n == IF st.op = "set" THEN [mm EXCEPT !.v = st.v, !.user = user]
           ELSE IF st.op = "user" THEN [mm EXCEPT !.user = ~fresh, !.extra = ~fresh]
           ELSE TInit0
      o == e.o
      x == Meaning(k, n.v)
      ok == CASE n.v = 0 -> ~o.there
              [] OTHER -> o.there /\ CASE k \in {"attr", "data"} -> o.a = x
                                       [] k = "class" -> Range(o.c) = x \cup (IF n.extra THEN {"mine"} ELSE {}) /\ Len(o.c) = Cardinality(Range(o.c))
                                       [] k = "style" -> {<<o.s[j].p, o.s[j].v>> : j \in 1..Len(o.s)} = {p \in x : p[2] # ""} \cup (IF n.extra THEN {<<"left", "9px">>} ELSE {})
                                       [] k \in {"prop", "live"} -> o.p = (IF n.user THEN "U" ELSE x) \/ (k = "live" /\ {o.p, x} = {"n:0", "n:-0"})
                                       [] k = "text" -> o.t = x
      \* a property is written when its value changes, and at no other time; a live one also when it has another value
      writes == k = "prop" /\ st.op = "set" => o.w = (IF chg THEN 1 ELSE 0)
  IN Bad(Bad(n, ok, "C12", "the element is not as the last value says"), writes, "C12", "a property was not written exactly when its value changed")
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ m = TInit0 /\ kind = "" /\ script = <<>>
TNext == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
         /\ i' = i + 1 /\ tr' = tr /\ UNCHANGED <<kind, script>>
         /\ m' = LET e == Traces[tr].ev[i + 1] IN IF e.e = "st" THEN MonStep(m, Traces[tr].kind, e) ELSE [m EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
