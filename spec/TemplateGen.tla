----------------------------- MODULE TemplateGen -----------------------------
(* Draws templates, ways of writing them, and compositions of partials.      *)
EXTENDS Template
CONSTANTS Depth, Partials, Wrong
VARIABLES out
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Some(z, s) == s[Pick(1..Len(s))]
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})

A(k, n, m, v) == [k |-> k, n |-> n, m |-> m, v |-> v, q |-> 1, sep |-> " "]
Pool(ns) == <<A("static", "id", "id", "i1"), A("static", "hidden", "hidden", ""), A("static", "data-s", "data-s", "x y"),
              A("attr", "title", "title", ""), A("attr", "data-x", "data-x", ""), A("class", "class", "class", ""), IF ns = "math" THEN A("attr", "lang", "lang", "") ELSE A("style", "style", "style", ""),
              A("prop", ".fooBar", "fooBar", ""), A("prop", ".x_y", "x_y", ""), A("live", "$liveProp", "liveProp", ""), A("live", "$a1", "a1", ""),
              A("event", "@click", "click", ""), A("event", "@fooBar", "fooBar", ""), A("event", "@x:y.z", "x:y.z", ""), A("ref", "", "", "")>>
            \o (CASE ns = "html" -> <<A("attr", "ariaLabel", "arialabel", ""), A("static", "TabIndex", "tabindex", "0")>>
                  [] ns = "svg" -> <<A("attr", "viewBox", "viewBox", ""), A("attr", "xlink:href", "xlink:href", ""), A("static", "preserveAspectRatio", "preserveAspectRatio", "none")>>
                  [] OTHER -> <<A("attr", "display", "display", "")>>)
RAttrs(z, ns) == LET pool == Pool(ns)
                     k == Pick({0, 0, 1, 1, 2, 3, 4})
                     ix == Shuffle({Pick({j} \cup {i \in 1..Len(pool) : i % 4 = j - 1}) : j \in 1..k})
                 IN [j \in 1..Len(ix) |-> [pool[ix[j]] EXCEPT !.q = Pick(1..6), !.sep = Pick({" ", " ", "\n  "}),
                                             !.n = IF @ = "class" THEN Pick({"class", "Class"}) ELSE IF @ = "style" THEN Pick({"style", "STYLE"}) ELSE @]]

Bodies == <<<<"a", "a">>, <<"b c", "b c">>, <<"x\ny", "x\ny">>, <<"&amp;", "&">>, <<"?$", "?$">>, <<"1 2 ", "1 2 ">>>>
Seg(z, raw) == LET b == Some(z, Bodies) IN
  [h |-> FALSE, pre |-> Pick(IF raw THEN {"", " ", " \n "} ELSE {"", "", " ", "\n", "\n  ", " \n"}), src |-> b[1], dom |-> b[2], post |-> IF b[1] = "1 2 " THEN "" ELSE Pick({"", "", " ", "\n", "\n  ", " \n"})]
Blank(z, raw) == [Seg(z, raw) EXCEPT !.src = "", !.dom = "", !.post = "", !.pre = Pick(IF raw THEN {" ", " \n "} ELSE {" ", "\n", "\n  "})]
HSeg == [h |-> TRUE, pre |-> "", src |-> "", dom |-> "", post |-> ""]
RSegs(z, raw) == LET s == Some(z, <<"l", "h", "h", "lh", "hl", "hh", "lhl", "hlh", "b", "bh", "hbh", "hb", "lhlhl">>)
                     L(c) == SubSeq(s, c, c)
                 IN [c \in 1..Len(s) |-> CASE L(c) = "h" -> HSeg [] L(c) = "b" -> Blank(c, raw) [] OTHER -> Seg(c, raw)]
Tx(z, ns, raw) == [N0 EXCEPT !.k = "tx", !.ns = ns, !.sg = RSegs(z, raw)]
Ch(z, ns) == [N0 EXCEPT !.k = "ch", !.ns = ns, !.s = Pick({"1", "1", "2", "3", "4", "5"})]
Cm(z) == [N0 EXCEPT !.n = Pick({"note", " a > b ", ""})]
El(n, ns, at, s, h) == [N0 EXCEPT !.k = "el", !.n = n, !.ns = ns, !.at = at, !.s = s, !.h = h]

\* No text next to text.
RECURSIVE Apart(_, _)
Apart(h, j) == IF j > Len(h) THEN <<>>
               ELSE IF j > 1 /\ h[j].k = "tx" /\ h[j - 1].k = "tx" THEN Apart(SubSeq(h, 1, j - 1) \o SubSeq(h, j + 1, Len(h)), j)
               ELSE <<h[j]>> \o Apart(h, j + 1)
RECURSIVE RNode(_, _)
RECURSIVE RKids(_, _)
RKids(m, cx) == LET k == Pick({0, 1, 1, 2, 2, 3, 4}) IN Apart([j \in 1..k |-> RNode(m, cx)], 1)
NsOf(cx) == IF cx \in {"svg", "math"} THEN cx ELSE "html"
Cells(m, tag, in) == [j \in 1..Pick(1..2) |-> IF Chance(30) THEN Ch(m, "html") ELSE El(tag, "html", RAttrs(j, "html"), "pair", RKids(m, in))]
RNode(m, cx) ==
  LET x == Pick(1..20) ns == NsOf(cx) at == RAttrs(x, ns) IN
  CASE x \in 1..5 -> Tx(x, ns, FALSE)
    [] x \in 6..8 -> Ch(x, ns)
    [] x = 9 -> Cm(x)
    [] m = 0 -> (CASE ns = "html" -> El(Pick({"input", "br", "img"}), ns, at, Pick({"void", "self"}), <<>>)
                   [] ns = "svg" -> El(Pick({"circle", "path"}), ns, at, Pick({"self", "pair"}), <<>>)
                   [] OTHER -> El("mi", ns, at, "pair", <<>>))
    [] cx = "html" -> (CASE x \in 10..13 -> El(Pick({"div", "span", "b", "x-y"}), ns, at, "pair", RKids(m - 1, "html"))
                         [] x = 14 -> El(Pick({"input", "br"}), ns, at, Pick({"void", "self"}), <<>>)
                         [] x = 15 -> El(Pick({"textarea", "title"}), ns, at, "pair", <<Tx(m, ns, TRUE)>>)
                         [] x = 16 -> El("ul", ns, at, "pair", Cells(m - 1, "li", "html"))
                         [] x = 17 -> El("table", ns, at, "pair", <<El("tbody", ns, <<>>, "pair", <<El("tr", ns, RAttrs(m, ns), "pair", Cells(m - 1, "td", "html"))>>)>>)
                         [] x = 18 -> El("svg", "svg", RAttrs(m, "svg"), "pair", RKids(m - 1, "svg"))
                         [] x = 19 -> El("math", "math", RAttrs(m, "math"), "pair", RKids(m - 1, "math"))
                         [] OTHER -> El("section", ns, at, "pair", RKids(m - 1, "html")))
    [] cx = "svg" -> (CASE x \in 10..14 -> El("g", ns, at, "pair", RKids(m - 1, "svg"))
                        [] x \in 15..17 -> El("circle", ns, at, Pick({"self", "pair"}), <<>>)
                        [] x = 18 -> El("foreignObject", ns, at, "pair", RKids(m - 1, "html"))
                        [] OTHER -> El("text", ns, at, "pair", <<Tx(m, ns, FALSE)>>))
    [] OTHER -> IF x \in 10..14 THEN El("mi", ns, at, "pair", <<Tx(m, ns, FALSE)>>) ELSE El("mrow", ns, at, "pair", RKids(m - 1, "math"))

\* Compositions: items [t "l" literal s / "h" hole / "p" partial h / "s" literal partial s].
I0 == [t |-> "h", s |-> "", h |-> <<>>]
RECURSIVE RComp(_, _)
RComp(p, m) ==
  IF p = <<>> THEN <<>>
  ELSE IF m > 0 /\ Chance(35)
  THEN LET k == Pick(0..Len(p)) IN <<[I0 EXCEPT !.t = "p", !.h = RComp(SubSeq(p, 1, k), m - 1)]>> \o RComp(SubSeq(p, k + 1, Len(p)), m)
  ELSE <<IF p[1].h THEN I0 ELSE [I0 EXCEPT !.t = IF m > 0 /\ Chance(15) THEN "s" ELSE "l", !.s = p[1].s]>> \o RComp(Tail(p), m)

Gen(mode) == LET h == IF mode = "textarea" THEN <<Tx(0, "html", FALSE)>> ELSE RKids(Depth, mode) IN h
\* A template with one hole, or two, that cannot be bound.
Put(h, x) == LET k == Pick(0..Len(h)) IN SubSeq(h, 1, k) \o <<x>> \o SubSeq(h, k + 1, Len(h))
BadOne(z, mode) ==
  LET ns == NsOf(mode) as == RAttrs(z, ns)
      n == CASE ns = "svg" -> "g" [] ns = "math" -> "mrow" [] OTHER -> "div"
  IN IF Chance(65) THEN El(n, ns, Put(as, [A("bad", "", "", "") EXCEPT !.q = Pick(1..13)]), "pair", RKids(0, mode))
     ELSE [N0 EXCEPT !.k = "bad", !.s = Pick({"1", "2", "3", "4", "6", "7", "9"} \cup (IF ns = "html" THEN {"5", "8"} ELSE {}))]
BadGen(z, mode) == LET x == BadOne(z, mode) k == Gen(mode)
                   IN IF Chance(60) THEN Put(k, x) ELSE Put(k, El(IF NsOf(mode) = "svg" THEN "g" ELSE IF NsOf(mode) = "math" THEN "mrow" ELSE "section", NsOf(mode), RAttrs(z, NsOf(mode)), "pair", Put(RKids(0, mode), x)))
Number(c) == LET N(it) == it.t = "h" IN Len(SelectSeq(c, N))
Init == out = 0
Next == \/ /\ out = 0 /\ ~Wrong
           /\ \E mode \in {Pick({"html", "html", "html", "svg", "math", "textarea"})} :
              \E h \in {Gen(mode)} :
              \E c \in {RComp(SrcAll(h), IF Partials /\ mode # "textarea" THEN Pick({1, 2, 3}) ELSE 0)} :
                PrintT("@@" \o ToJson([mode |-> mode, h |-> h, comp |-> c, holes |-> HolesAll(h), z |-> Pick(1..1000)]))
           /\ out' = 1
        \/ /\ out = 0 /\ Wrong
           /\ \E mode \in {Pick({"html", "html", "svg", "math"})} :
              \E h \in {Gen(mode)}, b \in {BadGen(1, mode)} :
              \E c \in {RComp(SrcAll(h), 0)}, bc \in {RComp(SrcAll(b), 0)} :
                PrintT("@@" \o ToJson([mode |-> mode, h |-> h, comp |-> c, holes |-> HolesAll(h), z |-> Pick(1..1000), bad |-> bc, n |-> Number(bc)]))
           /\ out' = 1
=============================================================================
