---------------------------- MODULE PatternSets ----------------------------
(* The patterns that are put together from the pieces of PatternWords.         *)
EXTENDS PatternWords, IOUtils

Thorough == IOEnv.TIER = "thorough"
Default == 10
Small(S, n) == { x \in S : x.d <= n }
Most == IF Thorough THEN 48 ELSE 16
Ones == Atoms \cup Words \cup Groups(Few \cup Words)
Alternatives == { Either(x, y) : x \in Few \cup Words, y \in Few \cup Words }
    \cup { Either3(x, y, z) : x \in {Word("ab"), Letter("a", "a")}, y \in {Word("ac"), Class("[0-1]", {"0", "1"})}, z \in {Word("x"), Word("")} }
Repeated(S) == UNION { { Times(x, 1), Times(x, 2), Between(x, 0, 1), Between(x, 1, 2), Between(x, 0, 2), Between(x, 2, 3), Maybe(x), Times(x, 0) } : x \in S }
Level1 == Ones \cup Alternatives
Kinds == { Letter("a", "a"), Class("[ab]", {"a", "b"}), Word("ab"), Word("x"), Grouped("(", Word("xyz")), Letter("\\.", "."), Either(Letter("a", "a"), Word("xyz")), Either3(Word("ab"), Word("ac"), Word("")) }
Level2 == Small(Repeated(IF Thorough THEN Level1 ELSE Kinds \cup Alternatives), Most)
Bases == Small(Repeated(Kinds), IF Thorough THEN 8 ELSE 4)
Pairs == { Then(x, y) : x \in Bases, y \in Few } \cup { Then(x, y) : x \in Few, y \in Bases }
Level3 == Small(Pairs \cup Repeated({ Grouped("(", x) : x \in Bases }) \cup { Either(x, y) : x \in Bases, y \in Bases }, Most)
Open(top) == Small(UNION { { Star(x, top), Plus(x, top), AtLeast(x, 2, top), AtLeast(x, 0, top), Then(Word("x"), Star(x, top)), Then(Plus(x, top), Word("z")), Grouped("(", Star(x, top)) } :
                 x \in { Letter("a", "a"), Word("ab"), Class("[ab]", {"a", "b"}), Grouped("(", Word("xy")) } }, 64)
AnyCased == { AnyCase("ab", {"a", "A"}, {"b", "B"}), AnyCase("x", {"x", "X"}, {""}), AnyCase("1z", {"1"}, {"z", "Z"}) }
Long == { AtLeast(Letter("a", "a"), 12, Default), AtLeast(Letter("a", "a"), 9, Default), Times(Letter("a", "a"), 40), Between(Letter("a", "a"), 3, 5) }

RECURSIVE Escape(_, _)
Escape(s, i) == IF i > Len(s) THEN "" ELSE LET c == SubSeq(s, i, i) IN (IF c = "\\" THEN "\\\\" ELSE IF c = "\"" THEN "\\\"" ELSE c) \o Escape(s, i + 1)
Q(s) == "\"" \o Escape(s, 1) \o "\""
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Quoted(S) == LET q == SetToSeq(S) IN [ i \in DOMAIN q |-> Q(q[i]) ]
=============================================================================
