------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Compositions of partials at one call site (C14): the strings and values *)
(* of the template composed, and which compositions are the same template. *)
(*                                                                         *)
(* An option is a value (s = <<>>), or a partial with strings s and an     *)
(* option in each of its holes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
V == [s |-> <<>>, c |-> <<>>]
P(s, c) == [s |-> s, c |-> c]
Options == <<V, P(<<"">>, <<>>), P(<<"a">>, <<>>), P(<<"b">>, <<>>), P(<<"a", "b">>, <<V>>), P(<<"", "">>, <<V>>), P(<<"a", "", "b">>, <<V, V>>),
             P(<<"", "b">>, <<P(<<"a">>, <<>>)>>), P(<<"a", "">>, <<P(<<"", "b">>, <<V>>)>>), P(<<"ab">>, <<>>)>>

\* The strings of a template having strings s and options c in its holes.
RECURSIVE Flat(_, _)
Flat(s, c) == IF c = <<>> THEN s
              ELSE LET rest == Flat(Tail(s), Tail(c)) IN
                   IF c[1].s = <<>> THEN <<s[1]>> \o rest
                   ELSE LET x == Flat(c[1].s, c[1].c) n == Len(x) IN
                        IF n = 1 THEN <<s[1] \o x[1] \o rest[1]>> \o Tail(rest)
                        ELSE <<s[1] \o x[1]>> \o SubSeq(x, 2, n - 1) \o <<x[n] \o rest[1]>> \o Tail(rest)
Site(n) == SubSeq(<<"<", "b", "a", ">">>, 1, n) \o <<"!">>

\* Generating.
CONSTANTS Mode
VARIABLES out, tr, i, bad
Idx == 1..Len(Options)
Cmd(seq, fresh) == PrintT("@@" \o ToJson([seq |-> [j \in 1..Len(seq) |-> [h \in 1..Len(seq[j]) |-> Options[seq[j][h]]]], fresh |-> fresh, n |-> Len(seq[1]), site |-> Site(Len(seq[1]))]))
GInit == out = 0 /\ tr = 0 /\ i = 0 /\ bad = {}
GNext == /\ out = 0 /\ out' = 1 /\ UNCHANGED <<tr, i, bad>>
         /\ IF Mode = "all" THEN \A a, b, c, d \in Idx : Cmd(<<<<a, b>>, <<c, d>>, <<a, b>>>>, (a + b + c + d) % 3)
            ELSE \E n \in {RandomElement(1..4)} : \E k \in {RandomElement(2..8)} :
                 \E seq \in {[j \in 1..k |-> [h \in 1..n |-> RandomElement({1, 1, RandomElement(Idx)})]]} : Cmd(seq, RandomElement(0..2))

\* Judging: event [e "made", j, strs, vals, ty, mode]: call j composed these strings and values, a template of identity ty.
Traces == ndJsonDeserialize(IOEnv.TRACES)
RECURSIVE Count(_)
Count(c) == IF c = <<>> THEN 0 ELSE (IF c[1].s = <<>> THEN 1 ELSE Count(c[1].c)) + Count(Tail(c))
Init == tr \in 1..Len(Traces) /\ i = 0 /\ bad = {} /\ out = 0
Next == LET t == Traces[tr] IN
  /\ i < Len(t.ev) /\ bad = {} /\ i' = i + 1 /\ UNCHANGED <<tr, out>>
  /\ bad' = LET e == t.ev[i + 1] IN
       IF e.e # "made" THEN {<<"ALL", "unexpected event " \o e.e>>}
       ELSE (IF e.strs = Flat(t.site, t.seq[e.j]) THEN {} ELSE {<<"C14", "a composition has not the strings of the template written out">>})
            \cup (IF e.vals = [q \in 1..Count(t.seq[e.j]) |-> q] THEN {} ELSE {<<"C14", "the values of a composition are not in their places">>})
            \cup (IF \A p \in 1..i : (t.seq[p] = t.seq[e.j]) => t.ev[p].ty = e.ty THEN {} ELSE {<<"C14", "equal compositions are different templates">>})
            \cup (IF \A p \in 1..i : (t.ev[p].ty = e.ty) => t.ev[p].strs = e.strs THEN {} ELSE {<<"C14", "different compositions are one template">>})
BadNow == {b \in bad : b[1] \in {IOEnv.PROP, "ALL"} \/ IOEnv.PROP = "*"}
Conforms == BadNow = {}
Report == [tr |-> tr, i |-> i, bad |-> BadNow]
=============================================================================
