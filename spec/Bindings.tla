------------------------------ MODULE Bindings ------------------------------
(***************************************************************************)
(* Element bindings (C12): what an element is like after a value has been  *)
(* bound is a function of that value, of what else the user put on the     *)
(* element, and for properties of the changes the user made since.         *)
(* Used to enumerate all sequences of values and to judge recordings.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Kinds, MaxLen, Simulated
Range(s) == {s[j] : j \in 1..Len(s)}

\* Values by kind. js tells the driver how to write them; the rest is their meaning.
V(js)       == [js |-> js]
Attrs == << [js |-> "null", a |-> "-"], [js |-> "undefined", a |-> "-"], [js |-> "true", a |-> "="], [js |-> "false", a |-> "-"],
            [js |-> "s:", a |-> "="], [js |-> "s:x", a |-> "=x"], [js |-> "s:y z", a |-> "=y z"], [js |-> "n:0", a |-> "=0"],
            [js |-> "n:1.5", a |-> "=1.5"], [js |-> "s:false", a |-> "=false"], [js |-> "n:NaN", a |-> "=NaN"], [js |-> "o:x", a |-> "=x"] >>
\* Classes: items <<tokens, on>>, from a string or a map.
Str(s, ts) == [js |-> "s:" \o s, c |-> <<<<ts, TRUE>>>>]
Map(js, c) == [js |-> js, c |-> c]
Classes == << [js |-> "null", c |-> <<>>], [js |-> "undefined", c |-> <<>>], Str("", {}), Str("a", {"a"}), Str("b", {"b"}), Str(" a  b ", {"a", "b"}), Str("b c", {"b", "c"}),
              Map("m:{}", <<>>), Map("m:{\"a\":true}", <<<<{"a"}, TRUE>>>>), Map("m:{\"a\":false,\"b\":true}", <<<<{"a"}, FALSE>>, <<{"b"}, TRUE>>>>),
              Map("m:{\"a b\":true}", <<<<{"a", "b"}, TRUE>>>>), Map("m:{\"a b\":false,\"b\":true}", <<<<{"a", "b"}, FALSE>>, <<{"b"}, TRUE>>>>),
              Map("m:{\"a\":true,\"b\":true,\"c\":false}", <<<<{"a"}, TRUE>>, <<{"b"}, TRUE>>, <<{"c"}, FALSE>>>>),
              Map("m:{\"b c\":true,\"b\":false}", <<<<{"b", "c"}, TRUE>>, <<{"b"}, FALSE>>>>), Map("m:{\"x\":false}", <<<<{"x"}, FALSE>>>>) >>
\* Styles: pairs <<property, value>>, "" for none.
Styles == << [js |-> "null", s |-> <<>>], [js |-> "undefined", s |-> <<>>], [js |-> "s:", s |-> <<>>], [js |-> "s:color: red", s |-> <<<<"color", "red">>>>],
             [js |-> "s:color: blue; width: 1px", s |-> <<<<"color", "blue">>, <<"width", "1px">>>>],
             [js |-> "m:{}", s |-> <<>>], [js |-> "m:{\"color\":\"red\"}", s |-> <<<<"color", "red">>>>],
             [js |-> "m:{\"color\":null,\"width\":\"2px\"}", s |-> <<<<"width", "2px">>>>],
             [js |-> "m:{\"backgroundColor\":\"red\",\"color\":\"blue\"}", s |-> <<<<"background-color", "red">>, <<"color", "blue">>>>],
             [js |-> "m:{\"background-color\":\"blue\"}", s |-> <<<<"background-color", "blue">>>>],
             [js |-> "m:{\"--v\":\"1\",\"width\":\"\"}", s |-> <<<<"--v", "1">>>>],
             [js |-> "m:{\"--v\":\"2\",\"color\":\"red\"}", s |-> <<<<"--v", "2">>, <<"color", "red">>>>],
             [js |-> "m:{\"webkitMaskSize\":\"3px\"}", s |-> <<<<"-webkit-mask-size", "3px">>>>],
             [js |-> "m:{\"--someName\":\"4\",\"fontSize\":\"5px\"}", s |-> <<<<"--someName", "4">>, <<"font-size", "5px">>>>] >>
Props == << [js |-> "null", p |-> "null"], [js |-> "undefined", p |-> "undefined"], [js |-> "true", p |-> "true"], [js |-> "n:1", p |-> "n:1"],
            [js |-> "n:NaN", p |-> "n:NaN"], [js |-> "s:x", p |-> "s:x"], [js |-> "s:", p |-> "s:"], [js |-> "O", p |-> "O"], [js |-> "n:-0", p |-> "n:-0"], [js |-> "n:0", p |-> "n:0"] >>
Texts == << [js |-> "null", t |-> ""], [js |-> "undefined", t |-> ""], [js |-> "true", t |-> "true"], [js |-> "false", t |-> "false"], [js |-> "n:0", t |-> "0"],
            [js |-> "s:", t |-> ""], [js |-> "s:x", t |-> "x"], [js |-> "s:<b>&amp;", t |-> "<b>&amp;"], [js |-> "o:x", t |-> "x"] >>
Vals(k) == CASE k \in {"attr", "data"} -> Attrs [] k = "class" -> Classes [] k = "style" -> Styles [] k \in {"prop", "live"} -> Props [] k = "text" -> Texts

\* The expected state of the element.
Init0 == [v |-> 0, new |-> TRUE, user |-> "", extra |-> FALSE, cur |-> "none"]
ClassOf(c) == LET RECURSIVE Go(_, _)
                  Go(s, j) == IF j > Len(c) THEN s ELSE Go(IF c[j][2] THEN s \cup c[j][1] ELSE s \ c[j][1], j + 1)
              IN Go({}, 1)
Meaning(k, j) == LET v == Vals(k)[j] IN
  CASE k \in {"attr", "data"} -> v.a [] k = "class" -> ClassOf(v.c) [] k = "style" -> Range(v.s) [] k \in {"prop", "live"} -> v.p [] k = "text" -> v.t

\* Steps: set v; user (the user writes the property, or adds a class or style of his own); drop (the element is removed).
Steps(k) == {[op |-> "set", v |-> j] : j \in 1..Len(Vals(k))} \cup (IF k \in {"prop", "live", "class", "style"} THEN {[op |-> "user", v |-> 0]} ELSE {}) \cup {[op |-> "drop", v |-> 0]}

(* Generation *)
VARIABLES kind, script
GInit == kind \in Kinds /\ script = <<>>
GNext == /\ kind' = kind
         /\ \/ /\ Len(script) < MaxLen
               /\ IF Simulated THEN \E st \in {RandomElement(Steps(kind))} : script' = Append(script, st)
                  ELSE \E st \in Steps(kind) :
                         /\ (script = <<>> => st.op = "set")
                         /\ (script # <<>> => ~(st.op # "set" /\ script[Len(script)].op = st.op))
                         /\ script' = Append(script, st)
            \/ /\ Len(script) = MaxLen
               /\ PrintT("@@" \o ToJson([kind |-> kind, steps |-> [j \in 1..MaxLen |-> [op |-> script[j].op, v |-> script[j].v,
                                                                    js |-> IF script[j].op = "set" THEN Vals(kind)[script[j].v].js ELSE ""]]]))
               /\ script' = Append(script, [op |-> "end", v |-> 0])
=============================================================================
