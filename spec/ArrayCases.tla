----------------------------- MODULE ArrayCases -----------------------------
(* Every combination of the keywords of an array, over items 1, 2 and 3 (0 is  *)
(* any other item), that some array satisfies: a tuple, in either of its forms *)
(* or none, what comes after it, contains with its counts, the counts of items *)
(* and whether they are unique. Which of them can be satisfied is found by     *)
(* trying every short array.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Str(n) == ToString(n)
None == -1
Whole == 0..3

\* a schema for exactly the items of a set
Text(x) == IF Cardinality(x) = 1 THEN "{\"const\": " \o Str(CHOOSE n \in x : TRUE) \o "}"
           ELSE IF x = {2, 3} THEN "{\"enum\": [2, 3]}"
           ELSE "{\"type\": \"integer\", \"minimum\": " \o Str(Min(x)) \o ", \"maximum\": " \o Str(Max(x)) \o "}"
Closed == {}
Free == Whole

Shapes == [ tuple : {<<>>, <<{1}>>, <<{1, 2}, {2}>>}, form : {"items", "legacy", "unevaluated"}, rest : {Closed, Free, {2, 3}, {1, 2, 3}},
            contains : {Free, {3}, {2, 3}, {1, 2, 3}}, minC : IF Thorough THEN {None, 0, 1, 2} ELSE {None, 0, 2}, maxC : IF Thorough THEN {None, 1, 2} ELSE {None, 2},
            lo : IF Thorough THEN {None, 1, 2, 3, 4} ELSE {None, 3}, hi : IF Thorough THEN {None, 1, 2, 3, 4} ELSE {None, 3}, unique : BOOLEAN ]

Sensible(s) ==
    /\ s.contains = Free => s.minC = None /\ s.maxC = None
    /\ s.lo = None \/ s.hi = None \/ s.lo <= s.hi
    /\ s.form = "legacy" => s.tuple # <<>>
    /\ s.form = "unevaluated" => s.rest # Free
    \* what may stand after a closed tuple
    /\ s.rest = Closed => s.contains = Free /\ s.tuple # <<>>

Arrays == UNION { [1..n -> Whole] : n \in 0..4 }
Count(a, x) == Cardinality({ i \in DOMAIN a : a[i] \in x })
\* what every array that is not finished keeps to
Kept(s, a) ==
    /\ \A i \in DOMAIN a : IF i <= Len(s.tuple) THEN a[i] \in s.tuple[i]
                           ELSE \/ a[i] \in s.rest
                                \/ s.form = "unevaluated" /\ s.contains # Free /\ a[i] \in s.contains
    /\ s.contains = Free \/ s.maxC = None \/ Count(a, s.contains) <= s.maxC
    /\ s.unique => \A i, j \in DOMAIN a : i # j => a[i] # a[j] \/ a[i] = 0
Owed(s) == IF s.contains = Free THEN 0 ELSE IF s.minC = None THEN 1 ELSE s.minC
Ok(s, a) ==
    /\ Kept(s, a)
    /\ s.lo = None \/ Len(a) >= s.lo
    /\ s.hi = None \/ Len(a) <= s.hi
    /\ s.contains = Free \/ Count(a, s.contains) >= Owed(s)
Longest == 4
Least(s) == LET n == Len(s.tuple) + Owed(s) IN IF s.lo = None \/ s.lo < n THEN n ELSE s.lo
\* the tuple is complete and contains is only used for as many items as are owed
Full(s, a) == Len(a) >= Least(s) /\ \A i \in DOMAIN a : i > Len(s.tuple) + Owed(s) => a[i] \in s.rest
Finished(s, a) == \E x \in Arrays : /\ Len(a) + Len(x) <= Longest /\ Ok(s, a \o x) /\ Full(s, a \o x)
\* no choice of earlier items leaves none for those that have to follow
NeverStuck(s) == \A a \in Arrays : Len(a) <= Least(s) /\ Kept(s, a) => Finished(s, a)
Satisfiable(s) == \E a \in Arrays : Ok(s, a)

Key(k, v) == "\"" \o k \o "\": " \o v
Num(k, n) == IF n = None THEN <<>> ELSE <<Key(k, Str(n))>>
Tuple(s) == "[" \o Join([ i \in DOMAIN s.tuple |-> Text(s.tuple[i]) ]) \o "]"
Rest(s, k) == IF s.rest = Free THEN <<>> ELSE <<Key(k, IF s.rest = Closed THEN "false" ELSE Text(s.rest))>>
Schema(s) == "{" \o Join(<<Key("type", "\"array\"")>>
    \o (IF s.tuple = <<>> THEN <<>> ELSE <<Key(IF s.form = "legacy" THEN "items" ELSE "prefixItems", Tuple(s))>>)
    \o Rest(s, IF s.form = "items" THEN "items" ELSE IF s.form = "legacy" THEN "additionalItems" ELSE "unevaluatedItems")
    \o (IF s.contains = Free THEN <<>> ELSE <<Key("contains", Text(s.contains))>>)
    \o Num("minContains", s.minC) \o Num("maxContains", s.maxC) \o Num("minItems", s.lo) \o Num("maxItems", s.hi)
    \o (IF s.unique THEN <<Key("uniqueItems", "true")>> ELSE <<>>)) \o "}"

\* items that are arrays (or objects) with keywords in two places: those of every item and those of the contained ones
Pieces == <<Key("contains", "{\"const\": 1}"), Key("minItems", "2"), Key("maxItems", "2"), Key("uniqueItems", "true"), Key("items", "{\"enum\": [1, 2, 3]}"), Key("prefixItems", "[{\"const\": 2}]"),
            Key("minContains", "1")>>
Parts == <<Key("required", "[\"a\"]"), Key("properties", "{\"a\": {\"type\": \"integer\", \"minimum\": 2}}"), Key("minProperties", "1"), Key("maxProperties", "2"), Key("additionalProperties", "{\"type\": \"boolean\"}"),
           Key("patternProperties", "{\"^p$\": {\"type\": \"null\"}}")>>
Pick(q, x) == LET w == SelectSeq([ i \in DOMAIN q |-> i ], LAMBDA i : i \in x) IN [ i \in DOMAIN w |-> q[w[i]] ]
\* the names that additional properties are for are told from the names next to them
Apart(q, x, y) == q = Parts => ~(5 \in x /\ {2, 6} \cap y # {}) /\ ~(5 \in y /\ {1, 2, 6} \cap x # {})
Counts == {"", ", \"minContains\": 2"} \cup (IF Thorough THEN {", \"minItems\": 3"} ELSE {})
Pairs(q) == { m \in (SUBSET (DOMAIN q)) \X { z \in SUBSET (DOMAIN q) : Thorough \/ Cardinality(z) <= 1 } \X Counts : Apart(q, m[1], m[2]) }
Two(type, q) == { "{\"type\": \"array\", " \o Key("items", "{" \o Join(<<Key("type", type)>> \o Pick(q, m[1])) \o "}") \o ", " \o Key("contains", "{" \o Join(Pick(q, m[2])) \o "}") \o ", \"maxItems\": 3" \o m[3] \o "}" : m \in Pairs(q) }
Nested == Two("\"array\"", Pieces) \cup Two("\"object\"", Parts)
          \cup { "{\"type\": \"array\", \"items\": [{\"const\": 0}], \"additionalItems\": {" \o Join(<<Key("type", "\"array\"")>> \o Pick(Pieces, x)) \o "}, \"contains\": {" \o Pieces[y] \o "}, \"maxItems\": 3}" : x \in SUBSET {1, 2, 3, 5}, y \in {1, 2, 3, 5} }

All == { Schema(s) : s \in { x \in Shapes : Sensible(x) /\ Satisfiable(x) /\ NeverStuck(x) } } \cup Nested
S == SetToSeq(All)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "array-" \o ToString(n), kind |-> "choice", extra |-> [at |-> "root", schema |-> S[n], covers |-> <<>>, den |-> 1]] ])
=============================================================================
