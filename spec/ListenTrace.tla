---------------------------- MODULE ListenTrace ----------------------------
(* Judges recorded listener and reference calls.                            *)
EXTENDS Listen
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, m
\* aborted: signals aborted, so that listeners with them are not called
\* xs: what is bound; arr: as a list; spent[j]: whether the once-listener at j was called: "no", "yes", "maybe"; there: mounted
TInit0 == [there |-> FALSE, arr |-> FALSE, xs |-> <<>>, spent |-> <<>>, aborted |-> {}, bad |-> {}]
Bad(mm, ok, prop, why) == IF ok THEN mm ELSE [mm EXCEPT !.bad = @ \cup {<<prop, why>>}]
At(s, j) == IF j <= Len(s) THEN s[j] ELSE ""
Max(a, b) == IF a > b THEN a ELSE b

Set(mm, st) ==
  LET there == st.op = "set"
      xs == IF there THEN st.v.xs ELSE <<>>
      kept == mm.there /\ there /\ mm.arr = st.v.arr
      spent == [j \in 1..Len(xs) |-> IF ~kept \/ j > Len(mm.xs) THEN "no" ELSE IF xs[j] = mm.xs[j] THEN mm.spent[j]
                                     ELSE IF Once(xs[j]) /\ (Wrong(mm.xs[j]) \/ (Opts(xs[j]) = Opts(mm.xs[j]) /\ mm.spent[j] # "no")) THEN "maybe" ELSE "no"]
  IN [mm EXCEPT !.there = there, !.arr = there /\ st.v.arr, !.xs = xs, !.spent = spent]

\* One dispatch: calls [x, ph, prevents].
Calls(mm, j, c) == {k \in 1..Len(c) : c[k].x = mm.xs[j]}
Fire(mm, c) ==
  LET js == {j \in 1..Len(mm.xs) : mm.xs[j] # ""}
      ok == /\ \A k \in 1..Len(c) : \E j \in js : mm.xs[j] = c[k].x
            /\ \A j \in js : LET n == Cardinality(Calls(mm, j, c)) IN CASE Signal(mm.xs[j]) \cap mm.aborted # {} -> n = 0 [] mm.spent[j] = "no" -> n = 1 [] mm.spent[j] = "yes" -> n = 0 [] OTHER -> n <= 1
      opts == \A k \in 1..Len(c) : c[k].ph = (IF Capture(c[k].x) THEN 1 ELSE 3) /\ c[k].prevents \in {"any", IF Passive(c[k].x) THEN "no" ELSE "yes"}
      m1 == [mm EXCEPT !.spent = [j \in 1..Len(mm.xs) |-> IF Once(mm.xs[j]) /\ (mm.spent[j] = "no" \/ Cardinality(Calls(mm, j, c)) = 1) THEN "yes" ELSE mm.spent[j]]]
  IN Bad(Bad(m1, ok, "C13", "an event did not call exactly the bound listeners"), ~ok \/ opts, "C13", "a listener was called with other options")
RECURSIVE Fires(_, _, _)
Fires(mm, fs, j) == IF j > Len(fs) THEN mm ELSE Fires(Fire(mm, fs[j]), fs, j + 1)
\* After removal nothing is called.
\* o, mm: before and after.
Reported(o, mm, e) == LET bad == \E j \in 1..Len(mm.xs) : Wrong(mm.xs[j])
                          new == \E j \in 1..Len(mm.xs) : Wrong(mm.xs[j]) /\ ~(o.there /\ o.arr = mm.arr /\ At(o.xs, j) = mm.xs[j])
  IN Bad(Bad(mm, new => e.err # "", "C13", "a value that cannot be bound was not reported"), e.err # "" => bad, "C13", "a value that can be bound was refused")
Clean(xs) == \A j \in 1..Len(xs) : ~Wrong(xs[j])
\* Where a value is refused, its predecessor may be called or not.
OnEvent(mm, e) == LET n == Reported(mm, [Set(mm, e.st) EXCEPT !.aborted = @ \cup {e.st.abort}], e)
  IN Bad(IF Clean(n.xs) THEN Fires(n, e.fires, 1) ELSE [n EXCEPT !.spent = [j \in 1..Len(@) |-> IF e.fires = <<>> THEN @[j] ELSE IF Once(n.xs[j]) THEN "maybe" ELSE @[j]]], e.gone = <<>>, "C13", "a listener of a removed element was called")

\* References: calls [t, x] in order.
Fn(x) == x \in {"f1", "f2", "n1"}
OnRef(mm, e) ==
  LET n == Reported(mm, Set(mm, e.st), e)
      kept == mm.there /\ n.there /\ mm.arr = n.arr
      N == Max(Len(mm.xs), Len(n.xs))
      Off == {j \in 1..Len(mm.xs) : Fn(mm.xs[j]) /\ mm.xs[j] # "n1" /\ ~(kept /\ At(n.xs, j) = mm.xs[j])}
      On  == {j \in 1..Len(n.xs) : Fn(n.xs[j]) /\ ~(kept /\ At(mm.xs, j) = n.xs[j])}
      cnt(t, x) == Cardinality({k \in 1..Len(e.calls) : e.calls[k].t = t /\ e.calls[k].x = x})
      num(S, xs, x) == Cardinality({j \in S : xs[j] = x})
      names == {"f1", "f2", "n1"}
      ok == /\ \A x \in names : cnt("off", x) = num(Off, mm.xs, x) /\ cnt("on", x) = num(On, n.xs, x)
            /\ \A k \in 1..Len(e.calls) : e.calls[k].t = "on" => e.calls[k].el
      \* at one position the old cleanup precedes the new call
      order == \A j \in Off \cap On : kept => \E a \in 1..Len(e.calls) : \E b \in 1..Len(e.calls) :
                  a < b /\ e.calls[a] .t = "off" /\ e.calls[a].x = mm.xs[j] /\ e.calls[b].t = "on" /\ e.calls[b].x = n.xs[j]
      refs == \A x \in {"R1", "R2"} : e.cur[x] = (IF x \in Range(n.xs) THEN "el" ELSE "null")
  IN Bad(Bad(Bad(n, ok, "C13", "a reference was not set and cleaned up exactly once"), order, "C13", "a reference was set before its cleanup"),
         refs, "C13", "a reference object does not point to its element exactly while mounted")
TInit == tr \in 1..Len(Traces) /\ i = 0 /\ m = TInit0 /\ kind = "" /\ script = <<>>
TNext == /\ i < Len(Traces[tr].ev) /\ m.bad = {}
         /\ i' = i + 1 /\ tr' = tr /\ UNCHANGED <<kind, script>>
         /\ m' = LET e == Traces[tr].ev[i + 1] IN CASE e.e = "event" -> OnEvent(m, e) [] e.e = "ref" -> OnRef(m, e) [] OTHER -> [m EXCEPT !.bad = {<<"ALL", "unexpected event " \o e.e>>}]
BadNow == {b \in m.bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
