-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* What rendering a tree of templates, lists, components and portals means.*)
(*                                                                         *)
(* A description (d) is what the user renders. A live tree (n) is what is  *)
(* mounted: it gives every item an identity, and components their state.   *)
(* Fresh and Recon say which live tree a description leads to; Dom, Setups,*)
(* Removed and the like say what can be observed of it.                    *)
(*                                                                         *)
(* Descriptions, all with the same fields:                                 *)
(*  k "t": template number tpl with text v and children h                  *)
(*  k "f": list with items h (all keyed, or none)                          *)
(*  k "c": component called name, showing child h[1 + state mod Len(h)]    *)
(*  k "p": portal into container "to" with child h[1]                      *)
(*  key: "" for none; cache: the driver reuses the element when the        *)
(*  description is the same; d: dependencies of effects; prov: instances   *)
(*  provided; boom: throws when rendered; l: label, unique within a tree;  *)
(*  eb: what throws while committing: "s" the setup of the last effect of a*)
(*  component, "c" the cleanup it returns, "r" the reference of a button,  *)
(*  "q" the cleanup it returns, "t" the conversion of v to text.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}

D0 == [k |-> "t", tpl |-> 6, name |-> "", to |-> "", key |-> "", v |-> "", h |-> <<>>, d |-> <<>>, prov |-> <<>>,
       cache |-> FALSE, boom |-> FALSE, eb |-> "", l |-> ""]
T(tpl, v, h)    == [D0 EXCEPT !.tpl = tpl, !.v = v, !.h = h]
F(items)        == [D0 EXCEPT !.k = "f", !.tpl = 0, !.h = items]
C(name, h, dp)  == [D0 EXCEPT !.k = "c", !.tpl = 0, !.name = name, !.h = h, !.d = dp]
P(to, h)        == [D0 EXCEPT !.k = "p", !.tpl = 0, !.to = to, !.h = <<h>>]

(* Templates: 1 <p>v</p>  2 <div>c</div>  3 <b>x</b>c<i>v</i>  4 c  5 s-v  6 (nothing)
              7 <ul>c<li>=</li>c</ul>  8 cc  9 <button ref listener>k</button>           *)
Arity(tpl) == CASE tpl \in {2, 3, 4} -> 1 [] tpl \in {7, 8} -> 2 [] OTHER -> 0

Typ(d) == <<d.k, d.tpl, d.name, d.to>>

\* Labels: paths made of keys and positions.
RECURSIVE Label(_, _)
Label(d, l) == [d EXCEPT !.l = l,
                         !.h = [i \in 1..Len(d.h) |->
                                  Label(d.h[i], l \o "." \o (IF d.k = "f" /\ d.h[i].key # "" THEN d.h[i].key ELSE ToString(i)))]]

\* Live trees.
N(d, id, kids, step) == [d |-> d, id |-> id, kids |-> kids, rs |-> step, fresh |-> TRUE, old |-> <<>>, st |-> 0, env |-> <<>>, taint |-> FALSE, opt |-> FALSE,
                       tx |-> IF d.eb = "t" THEN "" ELSE d.v]
None == N(D0, "", <<>>, 0)
IsNone(n) == n.id = ""

Alt(d, st) == d.h[1 + (st % Len(d.h))]

RECURSIVE Fresh(_, _, _, _)
Fresh(d, id, env, step) ==
  IF d.k = "c"
  THEN [N(d, id, <<Fresh(Alt(d, 0), id \o ".0", Append(env, d.prov), step)>>, step) EXCEPT !.env = env]
  ELSE N(d, id, [i \in 1..Len(d.h) |-> Fresh(d.h[i], id \o "." \o ToString(i), env, step)], step)

\* r: [step, opt]; opt when it is not known whether the render takes place.
RECURSIVE Recon(_, _, _, _, _)
RECURSIVE ReRender(_, _, _, _, _)
Recon(n, d, id, env, r) ==
  IF Typ(n.d) # Typ(d) \/ n.d.key # d.key THEN Fresh(d, id, env, r.step)
  ELSE IF d.cache /\ n.d = d THEN n
  ELSE IF d.k = "c"
  THEN IF d.name = "M" /\ n.d = d
       THEN IF n.taint THEN ReRender(n, d, id, env, [r EXCEPT !.opt = TRUE]) ELSE n
       ELSE ReRender(n, d, id, env, r)
  ELSE IF d.k = "f"
  THEN LET Old(i) == {j \in 1..Len(n.kids) : IF d.h[i].key = "" THEN n.kids[j].d.key = "" /\ j = i ELSE n.kids[j].d.key = d.h[i].key}
           kid(i) == LET c == id \o "." \o ToString(i)
                     IN IF Old(i) = {} THEN Fresh(d.h[i], c, env, r.step)
                        ELSE Recon(n.kids[CHOOSE j \in Old(i) : TRUE], d.h[i], c, env, r)
       IN [n EXCEPT !.d = d, !.kids = [i \in 1..Len(d.h) |-> kid(i)], !.rs = r.step]
  ELSE [n EXCEPT !.d = d, !.kids = [i \in 1..Len(d.h) |-> Recon(n.kids[i], d.h[i], id \o "." \o ToString(i), env, r)], !.rs = r.step,
                 !.tx = IF d.eb = "t" THEN @ ELSE d.v]

\* Renders a component that is there already.
ReRender(n, d, id, env, r) ==
  [n EXCEPT !.d = d, !.env = env, !.rs = r.step, !.fresh = FALSE, !.old = n.d.d, !.opt = r.opt \/ n.taint, !.taint = FALSE,
            !.kids = <<Recon(n.kids[1], Alt(d, n.st), id \o ".0", Append(env, d.prov), r)>>]

\* All nodes of a live tree, parents first.
RECURSIVE Nodes(_)
RECURSIVE NodesOf(_, _)
NodesOf(kids, i) == IF i > Len(kids) THEN <<>> ELSE Nodes(kids[i]) \o NodesOf(kids, i + 1)
Nodes(n) == IF IsNone(n) THEN <<>> ELSE <<n>> \o NodesOf(n.kids, 1)
Comps(n) == SelectSeq(Nodes(n), LAMBDA x : x.d.k = "c")

\* Components, descendants first.
RECURSIVE PostComps(_)
RECURSIVE PostCompsOf(_, _)
PostCompsOf(kids, i) == IF i > Len(kids) THEN <<>> ELSE PostComps(kids[i]) \o PostCompsOf(kids, i + 1)
PostComps(n) == IF IsNone(n) THEN <<>> ELSE PostCompsOf(n.kids, 1) \o (IF n.d.k = "c" THEN <<n>> ELSE <<>>)

\* The component with label l, with state s.
RECURSIVE SetState(_, _, _)
SetState(n, l, s) == IF n.d.k = "c" /\ n.d.l = l THEN [n EXCEPT !.st = s]
                     ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> SetState(n.kids[i], l, s)]]
\* The component with label l rendered again on its own.
RECURSIVE RenderAt(_, _, _)
RenderAt(n, l, step) == IF n.d.k = "c" /\ n.d.l = l THEN ReRender(n, n.d, n.id \o "/" \o ToString(step), n.env, [step |-> step, opt |-> FALSE])
                        ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> RenderAt(n.kids[i], l, step)]]
RECURSIVE Taint(_)
Taint(n) == [n EXCEPT !.taint = TRUE, !.kids = [i \in 1..Len(n.kids) |-> Taint(n.kids[i])]]

\* The DOM below a container: nodes in document order with their depth, what they are, and identity <<block, i>>.
Nd(dp, t, b, i) == [d |-> dp, t |-> t, b |-> b \o "/" \o ToString(i)]
RECURSIVE Dom(_, _)
RECURSIVE DomOf(_, _, _)
DomOf(kids, i, dp) == IF i > Len(kids) THEN <<>> ELSE Dom(kids[i], dp) \o DomOf(kids, i + 1, dp)
Dom(n, dp) ==
  LET b == n.id k == n.kids v == n.d.v IN
  CASE n.d.k = "f" -> DomOf(k, 1, dp)
    [] n.d.k = "p" -> <<>>
    [] n.d.k = "c" -> IF n.d.name = "A" THEN <<Nd(dp, "x-a", b, 1)>> \o Dom(k[1], dp + 1) ELSE Dom(k[1], dp)
    [] OTHER -> CASE n.d.tpl = 1 -> <<Nd(dp, "p", b, 1), Nd(dp + 1, "#" \o n.tx, b, 2)>>
                  [] n.d.tpl = 2 -> <<Nd(dp, "div", b, 1)>> \o Dom(k[1], dp + 1)
                  [] n.d.tpl = 3 -> <<Nd(dp, "b", b, 1), Nd(dp + 1, "#x", b, 2)>> \o Dom(k[1], dp)
                                    \o <<Nd(dp, "i", b, 3), Nd(dp + 1, "#" \o v, b, 4)>>
                  [] n.d.tpl = 4 -> Dom(k[1], dp)
                  [] n.d.tpl = 5 -> <<Nd(dp, "#s-", b, 1), Nd(dp, "#" \o v, b, 2)>>
                  [] n.d.tpl = 6 -> <<>>
                  [] n.d.tpl = 7 -> <<Nd(dp, "ul", b, 1)>> \o Dom(k[1], dp + 1)
                                    \o <<Nd(dp + 1, "li", b, 2), Nd(dp + 2, "#=", b, 3)>> \o Dom(k[2], dp + 1)
                  [] n.d.tpl = 8 -> Dom(k[1], dp) \o Dom(k[2], dp)
                  [] n.d.tpl = 9 -> <<Nd(dp, "button", b, 1), Nd(dp + 1, "#k", b, 2)>>
\* ... below a portal target.
PDom(n, to) == LET ps == SelectSeq(Nodes(n), LAMBDA x : x.d.k = "p" /\ x.d.to = to)
               IN IF ps = <<>> THEN <<>> ELSE Dom(ps[1].kids[1], 0)
MainDom(n) == IF IsNone(n) THEN <<>> ELSE Dom(n, 0)
Buttons(n) == SelectSeq(Nodes(n), LAMBDA x : x.d.k = "t" /\ x.d.tpl = 9)

\* Effects of a component, in order: 0 once; then by name.
Modes(name) == CASE name = "A" -> <<"once", "always", "dep">>
                 [] name = "W" -> <<"once", "dep", "dep">>
                 [] name = "M" -> <<"once", "always">>
                 [] OTHER -> <<"once">>
Needed(n, i) == CASE Modes(n.d.name)[i] = "always" -> TRUE
                  [] Modes(n.d.name)[i] = "once" -> n.fresh
                  [] OTHER -> n.fresh \/ n.old # n.d.d
\* The setups of the commit of step: <<id, i, must>> in order. Those in P <<id, i>> were tried before and failed.
RECURSIVE SetupsOf(_, _, _)
SetupsOf(cs, j, Pd) ==
  IF j > Len(cs) THEN <<>>
  ELSE [i \in 1..Len(Modes(cs[j].d.name)) |->
          LET need == Needed(cs[j], i) \/ <<cs[j].id, i>> \in Pd
          IN [id |-> cs[j].id, i |-> i, must |-> need /\ (cs[j].fresh \/ ~cs[j].opt), may |-> need \/ cs[j].opt, fresh |-> cs[j].fresh]]
       \o SetupsOf(cs, j + 1, Pd)
Setups(n, step, Pd) == SelectSeq(SetupsOf(SelectSeq(PostComps(n), LAMBDA x : x.rs = step), 1, Pd), LAMBDA x : x.may)

\* Lookup of class c by a component: the nearest instance, most recent first. An instance is written class:value.
Sub(c) == CASE c = "K1" -> {"K1", "K2"} [] OTHER -> {c}
ClassOf(x) == CASE x \in {"K1:1", "K1:2"} -> "K1" [] x \in {"K2:1", "K2:2"} -> "K2" [] OTHER -> "K3"
RECURSIVE LookIn(_, _, _)
LookIn(ps, c, i) == IF i = 0 THEN "" ELSE IF ClassOf(ps[i]) \in Sub(c) THEN ps[i] ELSE LookIn(ps, c, i - 1)
RECURSIVE Look(_, _, _)
Look(env, c, i) == IF i = 0 THEN IF c = "K3" THEN "default" ELSE "none:" \o c
                   ELSE LET x == LookIn(env[i], c, Len(env[i])) IN IF x # "" THEN x ELSE Look(env, c, i - 1)
Inject(n, c) == Look(Append(n.env, n.d.prov), c, Len(n.env) + 1)

\* Names of the components from the root to the one with label l.
RECURSIVE PathTo(_, _)
PathTo(n, l) ==
  IF n.d.l = l THEN IF n.d.k = "c" THEN <<n.d.name>> ELSE <<>>
  ELSE LET S == {i \in 1..Len(n.kids) : \E x \in Range(Nodes(n.kids[i])) : x.d.l = l}
       IN IF S = {} THEN <<>>
          ELSE (IF n.d.k = "c" THEN <<n.d.name>> ELSE <<>>) \o PathTo(n.kids[CHOOSE i \in S : TRUE], l)
Booms(n, step) == SelectSeq(Comps(n), LAMBDA x : x.rs = step /\ x.d.boom)

\* The effect of an operation on the live tree: [n, act, fail], act when something is rendered.
Apply(n, op, step) ==
  CASE op.op = "render"  ->
         LET m == IF IsNone(n) THEN Fresh(op.d, "s" \o ToString(step), <<>>, step) ELSE Recon(n, op.d, "s" \o ToString(step), <<>>, [step |-> step, opt |-> FALSE])
         IN [n |-> IF Booms(m, step) # <<>> THEN Taint(n) ELSE m, tried |-> m, fail |-> Booms(m, step) # <<>>, act |-> TRUE]
    [] op.op = "unmount" -> [n |-> None, tried |-> None, fail |-> FALSE, act |-> TRUE]
    [] op.op = "set"     ->
         LET c == SelectSeq(Comps(n), LAMBDA x : x.d.l = op.l)[1]
             s == SetState(n, op.l, op.s)
             m == RenderAt(s, op.l, step)
         IN IF c.st = op.s THEN [n |-> n, tried |-> n, fail |-> FALSE, act |-> FALSE]
            ELSE [n |-> IF Booms(m, step) # <<>> THEN Taint(s) ELSE m, tried |-> m, fail |-> Booms(m, step) # <<>>, act |-> TRUE]
    [] OTHER             -> [n |-> n, tried |-> n, fail |-> FALSE, act |-> FALSE]
=============================================================================
