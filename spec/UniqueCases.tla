---------------------------- MODULE UniqueCases ----------------------------
(* Values that are easily taken for one another, in every loop that looks for  *)
(* another candidate: unique items that have to take all of a pool, one of two *)
(* lists, lists with some of their values negated and conditions told apart by *)
(* them. Each candidate that is left is found again and again.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Lst(q) == "[" \o Join(q) \o "]"
Const(v) == "{\"const\": " \o v \o "}"
Enum(q) == "{\"enum\": " \o Lst(q) \o "}"
Consts(q) == [ i \in DOMAIN q |-> Const(q[i]) ]
Str(n) == ToString(n)
C(s, cov, den) == [schema |-> s, covers |-> cov, den |-> den]

Alikes == {
    <<"1", "\"1\"", "true", "\"true\"">>, <<"null", "\"null\"", "\"nil\"", "\"\"">>, <<"0", "false", "\"\"", "null">>, <<"0", "\"0\"", "\"-0\"", "\"0.0\"">>,
    <<"[]", "{}", "\"\"", "null">>, <<"[1]", "[\"1\"]", "1", "\"[1]\"">>, <<"[1, 2]", "[2, 1]", "[\"1 2\"]", "[12]">>, <<"[[1]]", "[1]", "[[1], []]", "[[]]">>,
    <<"{\"a\": 1}", "{\"a\": \"1\"}", "{\"b\": 1}", "{\"a\": 1, \"b\": 1}">>, <<"{\"a\": {}}", "{\"a\": []}", "{\"a\": null}", "{}">>,
    <<"\"a\"", "\"A\"", "\"a \"", "\" a\"">>, <<"\"a\"", "\"\\\"a\\\"\"", "\"a\\u0000\"", "\"\\\\u0061\"">>, <<"\"&\"", "\"&amp;\"", "\"\\\\u0026\"", "\"%26\"">>, <<"1", "1.5", "-1", "\"1.5\"">>,
    <<"9007199254740991", "9007199254740990", "\"9007199254740991\"", "-9007199254740991">>,
    <<"1000000", "\"1e+06\"", "\"1000000\"", "1000001">>, <<"[true, false]", "[false, true]", "[true]", "[\"true false\"]">>, <<"[null]", "[]", "[\"\"]", "[null, null]">>,
    <<"\"map[]\"", "{}", "\"[]\"", "[]">>, <<"{\"a\": [1, 2]}", "{\"a\": [2, 1]}", "{\"a\": [1]}", "{\"a\": [[1, 2]]}">> }
Sizes == IF Thorough THEN 2..4 ELSE {2, 4}
Pools == UNION { { SelectSeq(q, LAMBDA v : v \in x) : x \in { y \in SUBSET { q[i] : i \in DOMAIN q } : Cardinality(y) \in Sizes } } : q \in Alikes }
Without(q, v) == SelectSeq(q, LAMBDA x : x # v)

Holding(q) == [ i \in DOMAIN q |-> "{\"contains\": " \o Const(q[i]) \o ", \"minItems\": " \o Str(Len(q)) \o "}" ]
Firsts(q) == [ i \in DOMAIN q |-> "{\"prefixItems\": [" \o Const(q[i]) \o "]}" ]
Arr(items, lo, hi) == "{\"type\": \"array\", \"uniqueItems\": true, " \o items \o ", \"minItems\": " \o Str(lo) \o ", \"maxItems\": " \o Str(hi) \o "}"
Unique(q) == {
    C(Arr("\"items\": " \o Enum(q), Len(q), Len(q)), Holding(q) \o Firsts(q), 2 * Len(q)),
    C(Arr("\"items\": " \o Enum(q), Len(q), 10), Holding(q), 2 * Len(q)),
    C(Arr("\"items\": {\"anyOf\": " \o Lst(Consts(q)) \o "}", Len(q), Len(q)), Holding(q), 2 * Len(q)),
    C(Arr("\"prefixItems\": [" \o Const(q[1]) \o "], \"items\": " \o Enum(q), Len(q), Len(q)), Holding(q), 2 * Len(q)),
    C(Arr("\"prefixItems\": " \o Lst([ i \in DOMAIN q |-> Enum(q) ]), Len(q), Len(q)), Holding(q) \o Firsts(q), 2 * Len(q)),
    C(Arr("\"contains\": " \o Const(q[2]) \o ", \"items\": " \o Enum(q), Len(q), Len(q)), Holding(q), 2 * Len(q)) }
\* one candidate is left
Left(q) == UNION { {
    C("{\"oneOf\": [" \o Enum(<<v, Without(q, v)[1]>>) \o ", " \o Enum(Without(q, v)) \o "]}", Consts(SelectSeq(q, LAMBDA x : x # Without(q, v)[1])), 8),
    C("{\"enum\": " \o Lst(q) \o ", \"not\": " \o Enum(Without(q, v)) \o "}", <<Const(v)>>, 2),
    C("{\"enum\": " \o Lst(q) \o ", \"not\": " \o Const(v) \o "}", Consts(Without(q, v)), 2 * Len(q)),
    C("{\"oneOf\": " \o Lst(Consts(q)) \o "}", Consts(q), 2 * Len(q)),
    C("{\"enum\": " \o Lst(q) \o ", \"if\": " \o Const(v) \o ", \"then\": " \o Const(v) \o ", \"else\": " \o Enum(Without(q, v)) \o "}", Consts(q), 4 * Len(q)),
    C("{\"allOf\": [" \o Enum(q) \o ", " \o Const(v) \o "]}", <<Const(v)>>, 2) } : v \in { q[i] : i \in DOMAIN q } }

All == UNION { Unique(q) \cup Left(q) : q \in Pools }
Places == {"property", "items", "prefix", "any", "definitions"}
Nested == UNION { Unique(q) \cup Left(q) : q \in { p \in Pools : p \in { <<"1", "\"1\"", "true", "\"true\"">>, <<"{\"a\": 1}", "{\"a\": \"1\"}", "{\"b\": 1}", "{\"a\": 1, \"b\": 1}">> } } }
Cases == { [at |-> "root", c |-> c] : c \in All } \cup { [at |-> p, c |-> c] : p \in Places, c \in Nested }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "unique-" \o ToString(n), kind |-> "choice", extra |-> [at |-> S[n].at, schema |-> S[n].c.schema, covers |-> S[n].c.covers, den |-> S[n].c.den]] ])
=============================================================================
