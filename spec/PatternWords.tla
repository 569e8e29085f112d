---------------------------- MODULE PatternWords ----------------------------
(* Patterns as trees and the words they match from end to end: what it means   *)
(* to be generated from a pattern. t: the text of the pattern, w: its words,   *)
(* c: those that are sure to be generated, d: the least likely word is taken   *)
(* once in that many times, a: whether it can be repeated as it is.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Bounded(t, words, d, a) == [t |-> t, w |-> words, c |-> words, d |-> d, a |-> a]
Greater(a, b) == IF a > b THEN a ELSE b
Product(S, T) == { x \o y : x \in S, y \in T }
RECURSIVE Power(_, _)
Power(S, n) == IF n = 0 THEN {""} ELSE Product(S, Power(S, n - 1))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

Letter(t, c) == Bounded(t, {c}, 1, TRUE)
Class(t, cs) == Bounded(t, cs, Cardinality(cs), TRUE)
Word(s) == Bounded(s, {s}, 1, FALSE)
Grouped(open, x) == Bounded(open \o x.t \o ")", x.w, x.d, TRUE)
Loose(x) == IF x.a THEN x.t ELSE "(?:" \o x.t \o ")"
(* An alternative is as likely as any other unless the engine factors prefixes *)
Either(x, y) == Bounded("(" \o x.t \o "|" \o y.t \o ")", x.w \cup y.w, 2 * Greater(x.d, y.d) * 2, TRUE)
Either3(x, y, z) == Bounded("(?:" \o x.t \o "|" \o y.t \o "|" \o z.t \o ")", x.w \cup y.w \cup z.w, 4 * Greater(x.d, Greater(y.d, z.d)), TRUE)
Then(x, y) == Bounded(x.t \o y.t, Product(x.w, y.w), x.d * y.d, FALSE)
(* Number of repeats: n at the least and m at the most                         *)
Repeat(x, suffix, n, m) == Bounded(Loose(x) \o suffix, UNION { Power(x.w, k) : k \in n..m }, Greater(m - n + 1, Pow(2, m - n)) * Pow(x.d, m), FALSE)
Times(x, n) == Repeat(x, "{" \o ToString(n) \o "}", n, n)
Between(x, n, m) == Repeat(x, "{" \o ToString(n) \o "," \o ToString(m) \o "}", n, m)
Maybe(x) == Repeat(x, "?", 0, 1)
(* An open repetition stops at `top`; what has to be there may come on top      *)
Star(x, top) == Repeat(x, "*", 0, top)
Plus(x, top) == Repeat(x, "+", 1, Greater(1, top))
AtLeast(x, n, top) == LET all == Repeat(x, "{" \o ToString(n) \o ",}", n, Greater(n - 1, 0) + top) IN
    [all EXCEPT !.c = Repeat(x, "", n, Greater(n, top)).w]
(* Either case may be all that is generated for letters of any case             *)
AnyCase(t, lower, upper) == [Class("(?i:" \o t \o ")", Product(lower, upper)) EXCEPT !.c = {}]

Atoms == { Letter("a", "a"), Letter("\\.", "."), Letter("\\-", "-"), Letter("\\x62", "b"), Letter("é", "é"), Letter("\\$", "$"), Letter("[^\\x00-`b-\\x{10FFFF}]", "a"),
           Class("[ab]", {"a", "b"}), Class("[a-c]", {"a", "b", "c"}), Class("[a-ac-d]", {"a", "c", "d"}), Class("[.]", {"."}), Class("[-+]", {"-", "+"}), Class("[\\]a]", {"]", "a"}),
           Class("[é-ê]", {"é", "ê"}), Class("[ab0-1]", {"a", "b", "0", "1"}) }
Few == { Letter("a", "a"), Class("[ab]", {"a", "b"}), Letter("\\.", "."), Class("[0-1]", {"0", "1"}) }
Words == { Word("ab"), Word("ac"), Word("x"), Word("xyz") }
Groups(S) == { Grouped(o, x) : o \in {"(", "(?:", "(?P<n>"}, x \in S }
=============================================================================
