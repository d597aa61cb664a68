------------------------------- MODULE Router -------------------------------
(***************************************************************************)
(* Routing: the first route, in order, whose patterns match the leading    *)
(* segments and that ends the path there or has children.                  *)
(* A route is [id, ps, res, ch]: patterns, whether it has a resolver, and   *)
(* children. Patterns are [t, v, w]. Segments and captures are strings.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<>>
Some(x) == <<x>>
Segs == {"a", "b", "", "1", "01", "-7", "-0", "1.0", "9007199254740993", "x1", "x", "%61", "a%2Fb", "1a", "+1", "%31", "NaN", "0", "Infinity", "1e3", "0x1", "%2561", "%C3%A9"}
Ints == {"1", "-7", "0"}
Decoded(s) == CASE s = "%61" -> "a" [] s = "a%2Fb" -> "a/b" [] s = "%31" -> "1" [] s = "%2561" -> "%61" [] s = "%C3%A9" -> "e-acute" [] OTHER -> s
\* What a pattern captures of a segment: none if it does not match; literals match and capture nothing, which is said by "lit".
RECURSIVE Capture(_, _)
Capture(p, s) ==
  CASE p.t = "str"  -> IF s = p.v THEN Some("lit") ELSE None
    [] p.t = "key"  -> IF s = p.v THEN Some("s:" \o s) ELSE None
    [] p.t = "int"  -> IF s \in Ints THEN Some("n:" \o s) ELSE None
    [] p.t = "enc"  -> Some("s:" \o s)
    [] p.t = "dec"  -> Some("s:" \o Decoded(s))
    \* /^x(\d)?$/
    [] p.t = "re"   -> CASE s = "x" -> Some("r:x,undefined") [] s = "x1" -> Some("r:x1,1") [] OTHER -> None
    \* a value of the user's own: null for "a", false for "b", 0 for "1", an empty string for ""
    [] p.t = "own"  -> CASE s = "a" -> Some("o:null") [] s = "b" -> Some("o:false") [] s = "1" -> Some("n:0") [] s = "" -> Some("s:") [] OTHER -> None
    \* the first that matches
    [] p.t = "or"   -> LET c == Capture(p.v, s) IN IF c # None THEN c ELSE Capture(p.w, s)
    \* a value selected from what matched, or nothing: of integers only positive ones, of all else everything
    [] p.t = "sel"  -> LET c == Capture(p.v, s) IN IF c = None \/ c = Some("n:-7") THEN None ELSE Some("s:<" \o c[1] \o ">")
    \* a value selected that is none the less there: 0 from a number, an empty string from a string, null from all else
    [] p.t = "low"  -> LET c == Capture(p.v, s) IN
                       IF c = None THEN None
                       ELSE CASE SubSeq(c[1], 1, 1) = "n" -> Some("n:0") [] SubSeq(c[1], 1, 1) = "s" -> Some("s:") [] OTHER -> Some("o:null")
Matches(ps, segs) == Len(ps) <= Len(segs) /\ \A k \in 1..Len(ps) : Capture(ps[k], segs[k]) # None
Captures(ps, segs) == SelectSeq([k \in 1..Len(ps) |-> Capture(ps[k], segs[k])[1]], LAMBDA c : c # "lit")
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* The result: none, or what the resolver is given: <<route, captures>>.
RECURSIVE Route(_, _, _)
Route(routes, segs, caps) ==
  LET ok == {k \in 1..Len(routes) : Matches(routes[k].ps, segs) /\ (Len(routes[k].ps) = Len(segs) \/ Len(routes[k].ch) > 0)}
  IN IF ok = {} THEN None
     ELSE LET r == routes[CHOOSE k \in ok : \A j \in ok : k <= j]
              c == caps \o Captures(r.ps, segs)
          IN IF Len(r.ps) = Len(segs) THEN (IF r.res THEN <<r.id, c>> ELSE None)
             ELSE Route(r.ch, Drop(segs, Len(r.ps)), c)
=============================================================================
