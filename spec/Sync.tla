-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* The values components use: base values (atoms a b, an accessor c, a     *)
(* derived property d, an atom n that may be NaN, written 3, external      *)
(* stores s t) and what is computed of them; flaky fails at times.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bases == {"a", "b", "c", "d", "n", "s", "t"}
Par(x) == x["a"] % 2
Sum(x) == (x["a"] + x["b"]) % 3
SrcVal(x, src) == CASE src = "par" -> Par(x) [] src = "sum" -> Sum(x) [] src = "deep" -> Par(x) + 2 * Sum(x) [] src = "flaky" -> (x["a"] + 1) % 4 [] OTHER -> x[src]
\* What a component of the kind shows of the source.
Val(x, kind, src) == IF kind \in {"sel", "inline"} THEN SrcVal(x, src) % 2 ELSE SrcVal(x, src)
\* How often a use of the source listens to the base value.
Uses(src, base) == CASE src = "par" -> (IF base = "a" THEN 1 ELSE 0)
                     [] src = "flaky" -> (IF base = "a" THEN 1 ELSE 0)
                     [] src = "sum" -> (IF base \in {"a", "b"} THEN 1 ELSE 0)
                     [] src = "deep" -> (CASE base = "a" -> 2 [] base = "b" -> 1 [] OTHER -> 0)
                     [] OTHER -> (IF src = base THEN 1 ELSE 0)
=============================================================================
