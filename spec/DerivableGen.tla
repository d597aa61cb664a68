---------------------------- MODULE DerivableGen ----------------------------
(* Draws values and operations on them that a plain value would allow.      *)
EXTENDS Derivable
\* Getters: an object with getters, of which fields are assigned again and again.
CONSTANTS MaxOps, Rich, Getters
VARIABLES tree, ops, len, ini
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Names == {"a", "b", "c"}
RECURSIVE Value(_)
Value(d) == LET x == Pick(1..(IF d = 0 THEN 3 ELSE 10)) IN
  CASE x <= 2 -> Prim(Pick({"x", "y", "z"}))
    [] x = 3 -> Prim(Pick({"null", "x"}))
    [] x = 4 /\ Rich -> Arr([j \in 1..Pick({0, 1, 2, 3}) |-> Value(d - 1)])
    [] x = 5 /\ Rich -> Obj({<<"a", Value(d - 1)>>, <<"b", Value(d - 1)>>}, TRUE)
    [] OTHER -> Obj({<<k, Value(d - 1)>> : k \in Pick(SUBSET Names)}, FALSE)
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION {{<<k>> \o p : p \in Paths(Own(n, k))} : k \in Keys(n)}
At(n, t) == {p \in Paths(n) : Get(n, p).t = t}
\* Places: existing ones, new keys of objects, and properties with accessors.
Assignable(n) == Paths(n) \cup UNION {{Append(p, k) : k \in Names \cup (IF Get(n, p).acc THEN {"pair"} ELSE {})} : p \in At(n, "o")}
Readable(n) == Assignable(n) \cup UNION {{Append(p, k) : k \in {"sum", "pick"}} : p \in {q \in At(n, "o") : Get(n, q).acc}} \cup {Append(p, "length") : p \in At(n, "a")}
Deletable(n) == {p \in Assignable(n) : p # <<>> /\ Get(n, Front(p)).t = "o" /\ p[Len(p)] # "pair"}
O(op, p, x, k) == [op |-> op, p |-> p, x |-> x, k |-> k, q |-> <<>>, how |-> Pick({"get", "get", "draft"}), id |-> 0]
Write(n) == LET x == Pick(1..12) as == At(n, "a") IN
  CASE x = 11 -> LET p == Pick({p \in Assignable(n) : p # <<>>} \cup {<<"a">>}) q == Pick(Paths(n)) IN
                 IF n.t # "o" \/ Prefix(q, p) \/ Len(q) < 2 THEN O("read", q, Undef, 0) ELSE [O("copy", p, Undef, Pick(0..1)) EXCEPT !.q = q, !.how = "draft"]
    [] x = 12 -> O("stale", <<>>, Prim(Pick({"x", "y"})), Pick(0..9))
    [] x <= 5 -> LET p == Pick(Assignable(n)) IN O("set", p, IF Chance(15) /\ Get(n, p).t # "u" /\ Get(n, p).t = "p" THEN Get(n, p) ELSE Value(Pick(0..2)), 0)
    [] x <= 7 /\ Deletable(n) # {} -> O("del", Pick(Deletable(n)), Undef, 0)
    [] x >= 8 /\ as # {} -> LET p == Pick(as) l == Len(Get(n, p).h) IN
                            IF l >= 6 THEN [O("pop", p, Undef, 0) EXCEPT !.how = "draft"]
                            ELSE \* reversing objects is a known finding
                                 LET op == Pick({"push", "unshift", "pop", "shift", "cut", "insert"} \cup (IF \A y \in Range(Get(n, p).h) : y.t = "p" THEN {"reverse"} ELSE {})) IN [O(op, p, Value(Pick(0..1)), IF l = 0 THEN 0 ELSE Pick(0..l - 1)) EXCEPT !.how = "draft"]
    [] OTHER -> O("set", Pick(Assignable(n)), Prim(Pick({"x", "y", "z"})), 0)
Read(n) == LET x == Pick(1..10) IN
  CASE x <= 3 -> O("read", <<>>, Undef, 0)
    [] x <= 6 -> O("read", Pick(Readable(n)), Undef, 0)
    [] x <= 8 -> [O("sub", Pick(Readable(n)), Undef, Pick(0..2)) EXCEPT !.how = Pick({"full", "full", "full", "shallow"})]
    [] x = 9 /\ Chance(50) -> O("keep", Pick(Paths(n)), Undef, 0)
    [] OTHER -> [O("keys", Pick(At(n, "o") \cup At(n, "a") \cup {<<>>}), Undef, 0) EXCEPT !.how = "draft"]
Word1(n) == Prim(Pick({"x", "y", "z"}))
Small(n) == LET o == Obj({<<"a", Word1(n)>>, <<"b", Word1(n)>>} \cup (IF Chance(70) THEN {<<"c", Word1(n)>>} ELSE {}), TRUE) IN IF Chance(50) THEN o ELSE Obj({<<"b", o>>}, FALSE)
GetterAt(n) == IF n.acc THEN <<>> ELSE <<"b">>
Fuss(n) == LET x == Pick(1..10) g == GetterAt(n) IN
  CASE x <= 5 -> O("set", Append(g, Pick({"a", "a", "b", "c", "pair"})), Word1(n), 0)
    [] x = 6 -> O("del", Append(g, Pick({"b", "c"})), Undef, 0)
    [] x <= 8 -> O("read", Append(g, Pick({"pick", "pick", "sum"})), Undef, 0)
    [] x = 9 -> [O("sub", Append(g, Pick({"pick", "pick", "sum"})), Undef, Pick(0..2)) EXCEPT !.how = "full"]
    [] OTHER -> O("read", <<>>, Undef, 0)
Init == /\ ini \in {IF Getters THEN Small(0) ELSE Value(3)} /\ tree = ini /\ ops = <<>> /\ len \in {Pick(3..MaxOps)}
Next == \/ /\ Len(ops) < len
           /\ \E o \in {IF Getters THEN Fuss(tree) ELSE IF Chance(50) THEN Write(tree) ELSE Read(tree)} : ops' = Append(ops, o) /\ tree' = After(tree, o)
           /\ UNCHANGED <<len, ini>>
        \/ /\ Len(ops) = len
           /\ PrintT("@@" \o ToJson([ini |-> ini, ops |-> ops]))
           /\ ops' = Append(ops, <<>>) /\ UNCHANGED <<len, ini, tree>>
=============================================================================
