---------------------------- MODULE SignalsDesign ----------------------------
(***************************************************************************)
(* Why reads are consistent (C15): every computed value keeps the result   *)
(* and version of its last computation, the version of a signal being the  *)
(* sum of the versions of its dependencies; checked for every graph of     *)
(* NA atoms and NC computed values with at most two dependencies each.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NA, NC, MaxVersion
N == NA + NC
VARIABLES g, val, ver, memo, mver, fresh
vars == <<g, val, ver, memo, mver, fresh>>
Deps(k) == {<<>>} \cup {<<a>> : a \in 1..k} \cup {<<p[1], p[2]>> : p \in {q \in (1..k) \X (1..k) : q[1] <= q[2]}}
RECURSIVE True(_)
RECURSIVE Sum(_)
True(s) == IF s <= NA THEN val[s] ELSE (Sum(g[s - NA]) + s) % 3
Sum(d) == IF d = <<>> THEN 0 ELSE True(d[1]) + 2 * Sum(Tail(d))
RECURSIVE Ver(_)
RECURSIVE VerSum(_)
Ver(s) == IF s <= NA THEN ver[s] ELSE VerSum(g[s - NA])
VerSum(d) == IF d = <<>> THEN 0 ELSE Ver(d[1]) + VerSum(Tail(d))
\* Reading s in memo state <<memo, mver>>: <<value, memo, mver, what was computed>>.
RECURSIVE Read(_, _)
RECURSIVE ReadAll(_, _)
ReadAll(d, st) == IF d = <<>> THEN <<0, st>>
                  ELSE LET r == Read(d[1], st) rest == ReadAll(Tail(d), r[2]) IN <<r[1] + 2 * rest[1], rest[2]>>
Read(s, st) == IF s <= NA THEN <<val[s], st>>
               ELSE IF st.mver[s] >= Ver(s) THEN <<st.memo[s], st>>
               ELSE LET r == ReadAll(g[s - NA], st) v == (r[1] + s) % 3 IN
                    <<v, [memo |-> [r[2].memo EXCEPT ![s] = v], mver |-> [r[2].mver EXCEPT ![s] = Ver(s)], did |-> r[2].did \cup {s}]>>
Init == /\ g \in {h \in [1..NC -> UNION {Deps(k) : k \in 1..N - 1}] : \A k \in 1..NC : h[k] \in Deps(NA + k - 1)}
        /\ val = [a \in 1..NA |-> 0] /\ ver = [a \in 1..NA |-> 0]
        /\ memo = [s \in 1..N |-> 0] /\ mver = [s \in 1..N |-> -1] /\ fresh = [ok |-> TRUE, since |-> [s \in 1..N |-> TRUE]]
RECURSIVE Below(_)
Below(s) == IF s <= NA THEN {s} ELSE UNION {Below(g[s - NA][j]) : j \in 1..Len(g[s - NA])}
Set(a, v) == /\ val[a] # v /\ ver[a] < MaxVersion
             /\ val' = [val EXCEPT ![a] = v] /\ ver' = [ver EXCEPT ![a] = @ + 1]
             /\ fresh' = [fresh EXCEPT !.since = [s \in 1..N |-> @[s] \/ a \in Below(s)]]
             /\ UNCHANGED <<g, memo, mver>>
Do(s) == LET r == Read(s, [memo |-> memo, mver |-> mver, did |-> {}]) IN
         /\ memo' = r[2].memo /\ mver' = r[2].mver
         /\ fresh' = [ok |-> r[1] = True(s) /\ \A c \in r[2].did : fresh.since[c],
                      since |-> [c \in 1..N |-> fresh.since[c] /\ c \notin r[2].did]]
         /\ UNCHANGED <<g, val, ver>>
Next == (\E a \in 1..NA, v \in 0..1 : Set(a, v)) \/ \E s \in NA + 1..N : Do(s)
Consistent == fresh.ok
=============================================================================
