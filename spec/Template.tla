------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* Templates (C14): a template is a tree of elements, text and holes. Its  *)
(* source text is derived from the tree, in many ways of writing it; what  *)
(* it shows is derived from the tree and the value of every hole.          *)
(*                                                                         *)
(* Nodes: k "el" element n in namespace ns with attributes at and nodes h, *)
(*   s "pair"/"void"/"self"; "tx" text of segments sg; "ch" child hole     *)
(*   written in form s; "cm" comment n.                                    *)
(* Attributes: [k, n, m, v, q, sep]: n as written, m its name in the DOM,  *)
(*   v the value of a static one, q the quoting.                           *)
(* "bad" nodes and attributes have holes that cannot be bound.             *)
(* Segments: [h (a hole), pre, src, dom, post].                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Range(s) == {s[j] : j \in 1..Len(s)}
N0 == [k |-> "cm", n |-> "", ns |-> "html", at |-> <<>>, h |-> <<>>, s |-> "", sg |-> <<>>]

\* The source, as pieces: literals and holes.
Lit(s) == <<[h |-> FALSE, s |-> s]>>
Hole == <<[h |-> TRUE, s |-> ""]>>
RECURSIVE Cat(_, _)
Cat(ss, j) == IF j > Len(ss) THEN <<>> ELSE ss[j] \o Cat(ss, j + 1)
Quote(q) == CASE q = 1 -> <<"=", "">> [] q = 2 -> <<"=\"", "\"">> [] q = 3 -> <<"='", "'">> [] q = 4 -> <<" = ", "">> [] q = 5 -> <<"\n=\n\"", "\"">> [] q = 6 -> <<"= '", "'">>
\* Attributes and nodes with holes where none can be.
HoleIn(a, b) == Lit(a) \o Hole \o Lit(b)
BadAttr(v) == CASE v = 1 -> HoleIn("", "x=\"\"") [] v = 2 -> HoleIn("x", "=\"\"") [] v = 3 -> HoleIn("", "=\"v\"") [] v = 4 -> HoleIn("x=\"a", "\"") [] v = 5 -> HoleIn("x=\"", " b\"")
                [] v = 6 -> HoleIn("x=\"", "") \o HoleIn("", "\"") [] v = 7 -> HoleIn("lang=", " ") \o HoleIn("lang=", "") [] v = 8 -> HoleIn("Lang=", " ") \o HoleIn("lang='", "'")
                [] v = 9 -> HoleIn("x='a b\n", "'") [] v = 10 -> HoleIn("x=", "y") [] v = 11 -> Lit("lang=\"v\" ") \o HoleIn("lang=", "") [] v = 12 -> HoleIn(".x=", " ") \o HoleIn(".X=", "") [] OTHER -> HoleIn("x", "")
BadNode(s) == CASE s = "1" -> HoleIn("<!-- a ", " -->") [] s = "2" -> HoleIn("<", " x>") [] s = "3" -> HoleIn("<b", "></b>") [] s = "4" -> HoleIn("<!--", "") \o HoleIn(" ", "-->") [] s = "5" -> HoleIn("<template>", "</template>")
                [] s = "6" -> HoleIn("<", "x>") [] s = "7" -> HoleIn("<!--", "a-->") [] s = "8" -> HoleIn("<template title=", ">") \o HoleIn("<", "></template>") [] OTHER -> HoleIn("<b", " title=\"x\">y</b>")
SrcAttr(a) == CASE a.k = "ref" -> Lit(a.sep) \o Hole
                [] a.k = "bad" -> Lit(a.sep) \o BadAttr(a.q)
                [] a.k = "static" -> Lit(a.sep \o a.n \o (IF a.v = "" THEN "" ELSE "=\"" \o a.v \o "\""))
                [] OTHER -> Lit(a.sep \o a.n \o Quote(a.q)[1]) \o Hole \o Lit(Quote(a.q)[2])
SrcSeg(g) == IF g.h THEN Hole ELSE Lit(g.pre \o g.src \o g.post)
ChildForm(s) == CASE s = "1" -> <<"<", ">">> [] s = "2" -> <<"<", "/>">> [] s = "3" -> <<"<!--", "-->">> [] s = "4" -> <<"<!-- ", " -->">> [] s = "5" -> <<"<", " />">>
RECURSIVE Src(_)
Src(nd) ==
  CASE nd.k = "el" -> Lit("<" \o nd.n) \o Cat([j \in 1..Len(nd.at) |-> SrcAttr(nd.at[j])], 1)
                      \o (CASE nd.s = "void" -> Lit(">") [] nd.s = "self" -> Lit(" />")
                            [] OTHER -> Lit(">") \o Cat([j \in 1..Len(nd.h) |-> Src(nd.h[j])], 1) \o Lit("</" \o nd.n \o ">"))
    [] nd.k = "tx" -> Cat([j \in 1..Len(nd.sg) |-> SrcSeg(nd.sg[j])], 1)
    [] nd.k = "ch" -> Lit(ChildForm(nd.s)[1]) \o Hole \o Lit(ChildForm(nd.s)[2])
    [] nd.k = "bad" -> BadNode(nd.s)
    [] OTHER -> Lit("<!--" \o nd.n \o "-->")
SrcAll(h) == Cat([j \in 1..Len(h) |-> Src(h[j])], 1)

\* Holes in source order: [k, m, ns].
IsHole(a) == a.k # "static"
AttrHoles(nd) == LET hs == SelectSeq(nd.at, IsHole) IN [j \in 1..Len(hs) |-> [k |-> hs[j].k, m |-> hs[j].m, ns |-> nd.ns]]
RECURSIVE Holes(_)
Holes(nd) ==
  CASE nd.k = "el" -> AttrHoles(nd) \o Cat([j \in 1..Len(nd.h) |-> Holes(nd.h[j])], 1)
    [] nd.k = "tx" -> LET gs == SelectSeq(nd.sg, LAMBDA g : g.h) IN [j \in 1..Len(gs) |-> [k |-> "text", m |-> "", ns |-> nd.ns]]
    [] nd.k = "ch" -> <<[k |-> "child", m |-> "", ns |-> nd.ns]>>
    [] OTHER -> <<>>
HolesAll(h) == Cat([j \in 1..Len(h) |-> Holes(h[j])], 1)

\* What is shown, holes numbered from off + 1 having the versions vs. The value of hole j is "j.version".
Val(vs, j) == ToString(j) \o "." \o ToString(vs[j])
HasNL(p) == p \in {"\n", "\n  ", " \n", " \n "}
Keep(p) == IF HasNL(p) THEN "" ELSE p
DomSeg(g) == IF g.src = "" THEN Keep(g.pre) ELSE Keep(g.pre) \o g.dom \o Keep(g.post)
RECURSIVE TextOf(_, _, _, _)
TextOf(sg, j, vs, off) == IF j > Len(sg) THEN ""
                          ELSE IF sg[j].h THEN "t" \o Val(vs, off + 1) \o TextOf(sg, j + 1, vs, off + 1)
                          ELSE DomSeg(sg[j]) \o TextOf(sg, j + 1, vs, off)
E0 == [d |-> 0, t |-> "#", n |-> "", ns |-> "", at |-> {}, pr |-> {}, ev |-> {}, rf |-> ""]
ChildDom(d, ns, v) ==
  LET n == CASE ns = "svg" -> "g" [] ns = "math" -> "mi" [] OTHER -> "u"
  IN <<[E0 EXCEPT !.d = d, !.t = "el", !.n = n, !.ns = ns], [E0 EXCEPT !.d = d + 1, !.n = v]>>
AttrNo(at, j) == Cardinality({i \in 1..j : IsHole(at[i])})
RECURSIVE Dom(_, _, _, _)
RECURSIVE DomOf(_, _, _, _, _)
DomOf(h, j, d, vs, off) == IF j > Len(h) THEN <<>> ELSE Dom(h[j], d, vs, off) \o DomOf(h, j + 1, d, vs, off + Len(Holes(h[j])))
Dom(nd, d, vs, off) ==
  CASE nd.k = "el" ->
         LET A(k) == {j \in 1..Len(nd.at) : nd.at[j].k = k}
             v(j) == Val(vs, off + AttrNo(nd.at, j))
             m(j) == nd.at[j].m
             rs == A("ref")
         IN <<[d |-> d, t |-> "el", n |-> nd.n, ns |-> nd.ns,
               at |-> {<<m(j), nd.at[j].v>> : j \in A("static")} \cup {<<m(j), "a" \o v(j)>> : j \in A("attr")}
                      \cup {<<"class", "c" \o v(j)>> : j \in A("class")} \cup {<<"style", "s" \o v(j)>> : j \in A("style")},
               pr |-> {<<m(j), "p" \o v(j)>> : j \in A("prop") \cup A("live")},
               ev |-> {<<m(j), "e" \o v(j)>> : j \in A("event")},
               rf |-> IF rs = {} THEN "" ELSE "r" \o v(CHOOSE j \in rs : TRUE)]>>
            \o DomOf(nd.h, 1, d + 1, vs, off + Len(AttrHoles(nd)))
    [] nd.k = "tx" -> LET x == TextOf(nd.sg, 1, vs, off) IN IF x = "" THEN <<>> ELSE <<[E0 EXCEPT !.d = d, !.n = x]>>
    [] nd.k = "ch" -> ChildDom(d, nd.ns, "k" \o Val(vs, off + 1))
    [] OTHER -> IF nd.n = "" THEN <<>> ELSE <<[E0 EXCEPT !.d = d, !.t = "cm", !.n = nd.n]>>
=============================================================================
