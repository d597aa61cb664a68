------------------------------ MODULE Derivable ------------------------------
(***************************************************************************)
(* Derivable state (C16): a tree that behaves as a plain value.            *)
(*                                                                         *)
(* Nodes: [t, v, f, h, id, acc]; t "p" the primitive v, "u" undefined,     *)
(*   "o" an object with fields f (pairs <<key, node>>), "a" an array of h. *)
(*   acc: the object has also getters "sum", telling the fields a and b,   *)
(*   and "pick", telling b or c, depending on a,                           *)
(*   and a property "pair" which is a, and assigns a when assigned.       *)
(*   id: the identity of the object or array: > 0 as it was seen,          *)
(*   0 never seen before, -1 unknown.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Range(s) == {s[j] : j \in 1..Len(s)}
N0 == [t |-> "u", v |-> "", f |-> {}, h |-> <<>>, id |-> -1, acc |-> FALSE]
Undef == N0
Prim(x) == [N0 EXCEPT !.t = "p", !.v = x]
Obj(f, acc) == [N0 EXCEPT !.t = "o", !.f = f, !.acc = acc]
Arr(h) == [N0 EXCEPT !.t = "a", !.h = h]
Idx == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Keys(n) == CASE n.t = "o" -> {p[1] : p \in n.f} [] n.t = "a" -> {Idx[j] : j \in 1..Len(n.h)} [] OTHER -> {}
Pos(k) == CHOOSE j \in 1..Len(Idx) : Idx[j] = k
Own(n, k) == IF k \notin Keys(n) THEN Undef ELSE IF n.t = "a" THEN n.h[Pos(k)] ELSE (CHOOSE p \in n.f : p[1] = k)[2]
Word(n) == CASE n.t = "p" -> n.v [] n.t = "u" -> "undefined" [] OTHER -> "*"
Field(n, k) == CASE n.acc /\ k = "sum" -> Prim(Word(Own(n, "a")) \o "|" \o Word(Own(n, "b")))
                 [] n.acc /\ k = "pick" -> Prim(Word(Own(n, IF Word(Own(n, "a")) = "x" THEN "b" ELSE "c")))
                 [] n.acc /\ k = "pair" -> Own(n, "a")
                 [] n.t = "a" /\ k = "length" -> Prim(ToString(Len(n.h)))
                 [] OTHER -> Own(n, k)
RECURSIVE Get(_, _)
Get(n, p) == IF p = <<>> THEN n ELSE Get(Field(n, p[1]), Tail(p))
\* The same value, whatever its identities.
RECURSIVE Bare(_)
Bare(n) == [n EXCEPT !.id = -1, !.f = {<<p[1], Bare(p[2])>> : p \in @}, !.h = [j \in 1..Len(@) |-> Bare(@[j])]]
Owned(n, k, x, id) == IF n.t = "a" THEN [n EXCEPT !.h = IF Pos(k) <= Len(@) THEN [@ EXCEPT ![Pos(k)] = x] ELSE Append(@, x), !.id = id]
                      ELSE [n EXCEPT !.f = {p \in @ : p[1] # k} \cup {<<k, x>>}, !.id = id]
RECURSIVE Put(_, _, _, _)
Put(n, p, x, id) == IF p = <<>> THEN x ELSE Owned(n, p[1], Put(Own(n, p[1]), Tail(p), x, id), id)
RECURSIVE Del(_, _)
Del(n, p) == IF Len(p) = 1 THEN [n EXCEPT !.f = {q \in @ : q[1] # p[1]}, !.id = IF p[1] \in Keys(n) THEN 0 ELSE -1]
             ELSE Owned(n, p[1], Del(Own(n, p[1]), Tail(p)), IF Bare(Del(Own(n, p[1]), Tail(p))) = Bare(Own(n, p[1])) THEN -1 ELSE 0)
\* What array methods do.
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), s[1])
Method(h, m, x, k) == CASE m = "push" -> Append(h, x) [] m = "unshift" -> <<x>> \o h
                        [] m = "pop" -> IF h = <<>> THEN h ELSE SubSeq(h, 1, Len(h) - 1) [] m = "shift" -> IF h = <<>> THEN h ELSE Tail(h)
                        [] m = "reverse" -> Rev(h)
                        [] m = "cut" -> SubSeq(h, 1, k) \o SubSeq(h, k + 2, Len(h))
                        [] m = "insert" -> SubSeq(h, 1, k) \o <<x>> \o SubSeq(h, k + 1, Len(h))
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Front(p) == SubSeq(p, 1, Len(p) - 1)
\* Assigning through "pair" assigns "a".
Real(n, p) == IF p # <<>> /\ p[Len(p)] = "pair" THEN Append(Front(p), "a") ELSE p
\* The same value of unknown identities.
RECURSIVE Copy(_)
Copy(n) == [n EXCEPT !.id = -1, !.f = {<<p[1], Copy(p[2])>> : p \in @}, !.h = [j \in 1..Len(@) |-> Copy(@[j])]]
RECURSIVE Forget(_)
Forget(n) == [n EXCEPT !.id = IF @ = 0 THEN -1 ELSE @, !.f = {<<p[1], Forget(p[2])>> : p \in @}, !.h = [j \in 1..Len(@) |-> Forget(@[j])]]
\* Operations [op, p, x, k, q]; the value n has afterwards. "copy" assigns the draft at q, k = 1: in an object.
Copied(n, o) == LET c == Copy(Get(n, o.q)) IN IF o.k = 1 THEN Obj({<<"a", c>>, <<"b", Prim("w")>>}, FALSE) ELSE c
After(n, o) ==
  LET p == Real(n, o.p) old == Get(n, p) IN
  CASE o.op = "copy" -> LET m == Put(n, p, Copied(n, o), -1) IN IF Get(m, o.q).t = "u" \/ Prefix(p, o.q) THEN m ELSE Put(m, o.q, Forget(Get(m, o.q)), -1)
    [] o.op = "set" -> Put(n, p, o.x, IF Bare(o.x) = Bare(old) THEN -1 ELSE 0)
    [] o.op = "del" -> IF o.p = <<>> THEN n ELSE Del(n, o.p)
    [] o.op \in {"push", "pop", "shift", "unshift", "reverse", "cut", "insert"} -> Put(n, o.p, [Arr(Method(old.h, o.op, o.x, o.k)) EXCEPT !.id = -1], -1)
    [] OTHER -> n
Compound(o) == o.op \in {"push", "pop", "shift", "unshift", "reverse", "cut", "insert"}
=============================================================================
