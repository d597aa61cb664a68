----------------------------- MODULE KeyedList -----------------------------
(***************************************************************************)
(* Updating a keyed list in place: the two-ended diff, and the commit that *)
(* places blocks from last to first, each before the nearest node that     *)
(* follows it in the new list. Items may have no nodes of their own until  *)
(* they are mounted; values ("binds") have none at all.                    *)
(* Checked: the result is the new list, items present before and after     *)
(* keep their nodes, all others are removed or built once.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Keys, MaxLen
VARIABLES old, new, oh, ot, nh, nt, holes, mut, rem, dom, ci, pc
vars == <<old, new, oh, ot, nh, nt, holes, mut, rem, dom, ci, pc>>

Lists == UNION {{s \in [1..k -> Keys] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 0..MaxLen}
Range(s) == {s[i] : i \in 1..Len(s)}
\* A node: its key and whether it was there before.
Node(k, kept) == <<k, kept>>

Init == /\ old \in Lists /\ new \in Lists
        /\ oh = 1 /\ ot = Len(old) /\ nh = 1 /\ nt = Len(new)
        /\ holes = {} /\ mut = [i \in 1..Len(new) |-> "none"] /\ rem = {}
        /\ dom = [i \in 1..Len(old) |-> Node(old[i], TRUE)] /\ ci = Len(new) /\ pc = "diff"

\* One iteration of the diff.
Diff ==
  /\ pc = "diff"
  /\ IF nh > nt
     THEN /\ rem' = rem \cup {old[i] : i \in {i \in oh..ot : i \notin holes}}
          /\ pc' = "remove"
          /\ UNCHANGED <<oh, ot, nh, nt, holes, mut>>
     ELSE IF oh > ot
     THEN /\ mut' = [i \in 1..Len(new) |-> IF i \in nh..nt THEN "insert" ELSE mut[i]]
          /\ pc' = "remove"
          /\ UNCHANGED <<oh, ot, nh, nt, holes, rem>>
     ELSE /\ pc' = pc
          /\ IF oh \in holes THEN oh' = oh + 1 /\ UNCHANGED <<ot, nh, nt, holes, mut, rem>>
             ELSE IF ot \in holes THEN ot' = ot - 1 /\ UNCHANGED <<oh, nh, nt, holes, mut, rem>>
             ELSE IF old[oh] = new[nh]
             THEN oh' = oh + 1 /\ nh' = nh + 1 /\ mut' = [mut EXCEPT ![nh] = "update"] /\ UNCHANGED <<ot, nt, holes, rem>>
             ELSE IF old[ot] = new[nt]
             THEN ot' = ot - 1 /\ nt' = nt - 1 /\ mut' = [mut EXCEPT ![nt] = "update"] /\ UNCHANGED <<oh, nh, holes, rem>>
             ELSE IF old[oh] = new[nt] /\ old[ot] = new[nh]
             THEN /\ oh' = oh + 1 /\ nh' = nh + 1 /\ ot' = ot - 1 /\ nt' = nt - 1
                  /\ mut' = [mut EXCEPT ![nh] = "move", ![nt] = "move"] /\ UNCHANGED <<holes, rem>>
             ELSE IF old[oh] \notin {new[i] : i \in nh..nt}
             THEN oh' = oh + 1 /\ rem' = rem \cup {old[oh]} /\ UNCHANGED <<ot, nh, nt, holes, mut>>
             ELSE IF old[ot] \notin {new[i] : i \in nh..nt}
             THEN ot' = ot - 1 /\ rem' = rem \cup {old[ot]} /\ UNCHANGED <<oh, nh, nt, holes, mut>>
             ELSE LET S == {i \in oh..ot : i \notin holes /\ old[i] = new[nt]}
                  IN /\ nt' = nt - 1
                     /\ IF S # {} THEN holes' = holes \cup S /\ mut' = [mut EXCEPT ![nt] = "move"]
                        ELSE holes' = holes /\ mut' = [mut EXCEPT ![nt] = "insert"]
                     /\ UNCHANGED <<oh, ot, nh, rem>>
  /\ UNCHANGED <<old, new, dom, ci>>

Remove == /\ pc = "remove" /\ pc' = "place"
          /\ dom' = SelectSeq(dom, LAMBDA x : x[1] \notin rem)
          /\ UNCHANGED <<old, new, oh, ot, nh, nt, holes, mut, rem, ci>>

\* Placing the item at ci before the item that follows it.
At(d, k) == CHOOSE i \in 1..Len(d) : d[i][1] = k
InsertBefore(d, x, k) == IF k = "" THEN Append(d, x) ELSE LET i == At(d, k) IN SubSeq(d, 1, i - 1) \o <<x>> \o SubSeq(d, i, Len(d))
Place ==
  /\ pc = "place"
  /\ IF ci = 0 THEN pc' = "done" /\ UNCHANGED <<dom, ci>>
     ELSE LET nxt == IF ci = Len(new) THEN "" ELSE new[ci + 1]
          IN /\ pc' = pc /\ ci' = ci - 1
             /\ dom' = CASE mut[ci] = "insert" -> InsertBefore(dom, Node(new[ci], FALSE), nxt)
                         [] mut[ci] = "move" -> LET x == dom[At(dom, new[ci])] IN InsertBefore(SelectSeq(dom, LAMBDA y : y # x), x, nxt)
                         [] OTHER -> dom
  /\ UNCHANGED <<old, new, oh, ot, nh, nt, holes, mut, rem>>

Emit == /\ pc = "done" /\ "GENERATE" \in DOMAIN IOEnv /\ PrintT("@@" \o ToJson(<<old, new>>)) /\ pc' = "emitted"
        /\ UNCHANGED <<old, new, oh, ot, nh, nt, holes, mut, rem, dom, ci>>
Next == Diff \/ Remove \/ Place \/ Emit
Right == pc = "done" => dom = [i \in 1..Len(new) |-> Node(new[i], new[i] \in Range(old))]
EachOnce == pc = "place" => /\ \A i \in 1..Len(new) : mut[i] # "none"
                            /\ rem = Range(old) \ Range(new)
=============================================================================
