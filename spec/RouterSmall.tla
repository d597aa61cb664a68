---------------------------- MODULE RouterSmall -----------------------------
(***************************************************************************)
(* Every small route table over a few patterns, with every short path, and *)
(* what is to be true of routing whatever way it is defined.               *)
(***************************************************************************)
EXTENDS Router, Json, IOUtils
CONSTANTS Big
VARIABLES table, printed
P0(t, v, w) == [t |-> t, v |-> v, w |-> w]
A == P0("str", "a", "") N == P0("int", "", "") E == P0("enc", "", "")
Lists == {<<>>, <<A>>, <<N>>, <<E>>, <<A, N>>, <<E, A>>}
Leaf(id, ps, res) == [id |-> id, ps |-> ps, res |-> res, ch |-> <<>>]
Kids == {<<>>} \cup {<<Leaf(11, ps, TRUE)>> : ps \in Lists} \cup (IF Big THEN {<<Leaf(11, ps, TRUE), Leaf(12, qs, TRUE)>> : ps \in Lists, qs \in Lists} ELSE {})
Tables == {<<[id |-> 1, ps |-> ps, res |-> res, ch |-> ch], Leaf(2, qs, TRUE)>> : ps \in Lists, res \in BOOLEAN, ch \in Kids, qs \in Lists}
Paths == UNION {[1..n -> {"a", "1", ""}] : n \in 1..3}
Init == table \in Tables /\ printed = FALSE
Next == ~printed /\ printed' = TRUE /\ table' = table
        /\ PrintT("@@" \o ToJson([table |-> table, asks |-> {[segs |-> p, lead |-> TRUE] : p \in Paths}]))
\* A result names a route that has a resolver, and the captures are those of the routes from the top to it.
ById(id) == CASE id = 1 -> <<table[1]>> [] id = 2 -> <<table[2]>> [] OTHER -> <<table[1], table[1].ch[id - 10]>>
Flat(rs) == IF Len(rs) = 1 THEN rs[1].ps ELSE rs[1].ps \o rs[2].ps
Sound == \A p \in Paths : LET r == Route(table, p, <<>>) IN r # None =>
           LET rs == ById(r[1]) IN Len(Flat(rs)) = Len(p) /\ Matches(Flat(rs), p) /\ r[2] = Captures(Flat(rs), p) /\ rs[Len(rs)].res
=============================================================================
