---------------------------- MODULE ChoiceCases ----------------------------
(* Schemas that leave a choice, and what is on offer: for each of the offers a *)
(* schema only values that took it satisfy. `den`: the least likely of the     *)
(* offers is taken once in that many generations at the least.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
Str(n) == ToString(n)
Q(s) == "\"" \o s \o "\""
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Lst(q) == "[" \o Join(q) \o "]"
Const(v) == "{\"const\": " \o v \o "}"
Ty(t) == "{\"type\": " \o Q(t) \o "}"
Consts(q) == [ i \in DOMAIN q |-> Const(q[i]) ]
Tys(q) == [ i \in DOMAIN q |-> IF q[i] = "number" THEN "{\"type\": \"number\", \"not\": {\"type\": \"integer\"}}" ELSE Ty(q[i]) ]
C(s, cov, den) == [schema |-> s, covers |-> cov, den |-> den]
Seqs(S) == { SetToSeq(x) : x \in S }

(* Values listed                                                               *)
Literals == {"null", "true", "1", "1.5", "\"a\"", "[]", "{}"}
EnumOf(q) == C("{\"enum\": " \o Lst(q) \o "}", Consts(q), Len(q))
Enums == { EnumOf(q) : q \in Seqs({ x \in SUBSET Literals : Cardinality(x) \in IF Thorough THEN 1..7 ELSE {1, 2, 6, 7} }) }
    \cup { EnumOf(<<"false", "0", "\"\"", "null">>), EnumOf(<<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12">>),
           C("{\"type\": \"integer\", \"enum\": [1, 2, 3]}", Consts(<<"1", "2", "3">>), 3),
           C("{\"type\": [\"integer\", \"null\"], \"enum\": [1, null]}", Consts(<<"1", "null">>), 2),
           C("{\"type\": \"boolean\"}", Consts(<<"true", "false">>), 2),
           C("{\"enum\": [1, 2, 3], \"not\": {\"const\": 2}}", Consts(<<"1", "3">>), 3),
           C("{\"enum\": [1, 2, 3, 4], \"allOf\": [{\"enum\": [2, 3, 4, 5]}]}", Consts(<<"2", "3", "4">>), 3),
           C("{\"allOf\": [{\"enum\": [1, 2, 3, 4]}, {\"enum\": [4, 3, 5]}]}", Consts(<<"3", "4">>), 2) }

(* Types listed                                                                *)
TypeNames == {"null", "boolean", "integer", "number", "string", "array", "object"}
Apart(x) == ~({"integer", "number"} \subseteq x)
TypesOf(q) == C("{\"type\": " \o Lst([ i \in DOMAIN q |-> Q(q[i]) ]) \o "}", Tys(q), 2 * Len(q))
Types == { TypesOf(q) : q \in Seqs({ x \in SUBSET TypeNames : x # {} /\ Apart(x) /\ (Thorough \/ Cardinality(x) \in {1, 2, 6}) }) }
    \cup { C("{\"not\": {\"type\": \"null\"}}", Tys(<<"boolean", "number", "string", "array", "object">>), 12),
           C("{\"not\": {\"type\": [\"null\", \"string\"]}}", Tys(<<"boolean", "number", "array", "object">>), 12),
           C("{\"type\": [\"null\", \"boolean\", \"string\"], \"not\": {\"type\": \"boolean\"}}", Tys(<<"null", "string">>), 3),
           C("{\"allOf\": [{\"type\": [\"null\", \"boolean\", \"string\"]}, {\"type\": [\"string\", \"null\", \"array\"]}]}", Tys(<<"null", "string">>), 3),
           C("{\"type\": [\"string\", \"integer\", \"array\", \"object\"], \"minLength\": 1, \"minimum\": 1, \"minItems\": 1, \"minProperties\": 1}", Tys(<<"string", "integer", "array", "object">>), 4) }

(* Integers between two ends                                                   *)
Ints(lo, hi, m) == { n \in lo..hi : n % m = 0 }
IntSeq(S) == [ i \in DOMAIN SetToSortSeq(S, <) |-> Str(SetToSortSeq(S, <)[i]) ]
Num(t, lk, lo, hk, hi, m, S) == C("{\"type\": " \o Q(t) \o ", " \o Q(lk) \o ": " \o Str(lo) \o ", " \o Q(hk) \o ": " \o Str(hi) \o (IF m = 1 THEN "" ELSE ", \"multipleOf\": " \o Str(m)) \o "}",
    Consts(IntSeq(S)), Cardinality(S))
Integers_ ==
    { Num("integer", "minimum", lo, "maximum", lo + d, 1, Ints(lo, lo + d, 1)) : lo \in {-7, -1, 0, 1, 5}, d \in 0..5 }
    \cup { Num("integer", "exclusiveMinimum", lo, "exclusiveMaximum", lo + d, 1, Ints(lo + 1, lo + d - 1, 1)) : lo \in {-7, -1, 0, 5}, d \in 2..5 }
    \cup { Num("integer", "exclusiveMinimum", lo, "maximum", lo + d, 1, Ints(lo + 1, lo + d, 1)) : lo \in {-7, -1, 0, 5}, d \in 1..5 }
    \cup { Num("integer", "minimum", lo, "exclusiveMaximum", lo + d, 1, Ints(lo, lo + d - 1, 1)) : lo \in {-7, -1, 0, 5}, d \in 1..5 }
    \cup { Num(t, "minimum", lo, "maximum", lo + d, m, Ints(lo, lo + d, m)) : t \in {"integer", "number"}, lo \in {-6, -1, 0, 4}, d \in {6, 9, 12}, m \in {2, 3} }
    \cup { C("{\"type\": \"number\", \"minimum\": 0, \"maximum\": 2, \"multipleOf\": 0.5}", Consts(<<"0", "0.5", "1", "1.5", "2">>), 5),
           C("{\"type\": \"integer\", \"minimum\": 0.5, \"maximum\": 3.5}", Consts(<<"1", "2", "3">>), 3),
           C("{\"type\": \"integer\", \"minimum\": 9007199254740989, \"maximum\": 9007199254740991}", Consts(<<"9007199254740989", "9007199254740990", "9007199254740991">>), 3),
           C("{\"type\": \"number\", \"minimum\": -1, \"maximum\": 1}", <<"{\"exclusiveMaximum\": -0.5}", "{\"exclusiveMinimum\": 0.5}", "{\"minimum\": -0.5, \"maximum\": 0}", "{\"minimum\": 0, \"maximum\": 0.5}">>, 4),
           C("{\"type\": \"integer\", \"minimum\": 1, \"maximum\": 20}", Consts(<<"1", "20">>), 20),
           C("{\"type\": \"integer\"}", <<"{\"minimum\": 0}">>, 2) }

(* Properties that are there or are not                                        *)
Names == <<"a", "b", "c">>
ObjSchema(n, req, minp, maxp, extra) == "{\"type\": \"object\", \"properties\": {" \o Join([ i \in 1..n |-> Q(Names[i]) \o ": {\"type\": \"null\"}" ]) \o "}, \"required\": " \o Lst([ i \in 1..req |-> Q(Names[i]) ])
    \o (IF minp = 0 THEN "" ELSE ", \"minProperties\": " \o Str(minp)) \o (IF maxp = 9 THEN "" ELSE ", \"maxProperties\": " \o Str(maxp)) \o extra \o "}"
Members(x) == [ i \in 1..Cardinality(x) |-> SetToSortSeq(x, <)[i] ]
NameSet(x) == "{\"required\": " \o Lst([ i \in DOMAIN Members(x) |-> Q(Names[Members(x)[i]]) ]) \o ", \"properties\": {" \o Join([ i \in DOMAIN Members(x) |-> Q(Names[Members(x)[i]]) \o ": {}" ]) \o "}, \"additionalProperties\": false}"
Subsets(n, req, minp, maxp) == { x \in SUBSET (1..n) : (1..req) \subseteq x /\ Cardinality(x) >= minp /\ Cardinality(x) <= maxp }
Exactly(n, req, minp, maxp) == LET q == SetToSeq(Subsets(n, req, minp, maxp)) IN [ i \in DOMAIN q |-> NameSet(q[i]) ]
Sensible(n, req, minp, maxp) == req <= n /\ minp <= maxp /\ req <= maxp /\ minp <= n
Objects1 == { C(ObjSchema(p[1], p[2], p[3], p[4], ", \"additionalProperties\": false"), Exactly(p[1], p[2], p[3], p[4]), 40) :
               p \in { p \in (1..3) \X (0..2) \X (0..2) \X {1, 2, 3, 9} : Sensible(p[1], p[2], p[3], p[4]) } }
Has(k) == "{\"required\": [" \o Q(k) \o "]}"
Lacks(k) == "{\"not\": {\"required\": [" \o Q(k) \o "]}}"
Some(pat) == "{\"not\": {\"patternProperties\": {" \o Q(pat) \o ": false}}}"
None(pat) == "{\"patternProperties\": {" \o Q(pat) \o ": false}}"
Objects2 == {
    C("{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"null\"}, \"b\": {\"type\": \"null\"}}}", <<Has("a"), Lacks("a"), Has("b"), Lacks("b")>>, 10),
    C("{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"null\"}}, \"additionalProperties\": {\"type\": \"boolean\"}}", <<Has("a"), Lacks("a"), Some("^..+"), None("^..+")>>, 20),
    C("{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"null\"}}, \"required\": [\"a\"], \"maxProperties\": 2, \"additionalProperties\": {\"type\": \"boolean\"}}", <<Some("^..+"), None("^..+")>>, 4),
    C("{\"type\": \"object\", \"patternProperties\": {\"^x[0-9]$\": {\"type\": \"null\"}, \"^y[0-9]$\": {\"type\": \"boolean\"}}}", <<Some("^x"), None("^x"), Some("^y"), None("^y"), "{\"minProperties\": 1, \"patternProperties\": {\"^x\": false}}", "{\"minProperties\": 1, \"patternProperties\": {\"^y\": false}}">>, 30),
    C("{\"type\": \"object\", \"patternProperties\": {\"^x[0-9]$\": {\"type\": \"null\"}}, \"maxProperties\": 1, \"additionalProperties\": false}", <<Some("^x"), None("^x")>>, 3),
    C("{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"null\"}}, \"patternProperties\": {\"^x[0-9]$\": {\"type\": \"null\"}}, \"additionalProperties\": false}", <<Has("a"), Lacks("a"), Some("^x"), None("^x")>>, 20),
    C("{\"type\": \"object\", \"additionalProperties\": {\"type\": \"null\"}, \"maxProperties\": 2}", <<"{\"maxProperties\": 0}", "{\"minProperties\": 1, \"maxProperties\": 1}", "{\"minProperties\": 2}">>, 4),
    C("{\"type\": \"object\", \"additionalProperties\": {\"enum\": [1, 2]}}", <<"{\"maxProperties\": 0}", "{\"not\": {\"additionalProperties\": {\"const\": 1}}}", "{\"not\": {\"additionalProperties\": {\"const\": 2}}}">>, 12) }

PatNames == <<"^x[0-9]$", "^y[0-9]$", "^z[0-9]{2}$", "^[a-c]w$", "^v$">>
Patterns == { C("{\"type\": \"object\", \"patternProperties\": {" \o Join([ i \in 1..n |-> Q(PatNames[i]) \o ": {\"type\": \"null\"}" ]) \o "}" \o x \o "}",
                [ i \in 1..n |-> Some(PatNames[i]) ] \o [ i \in 1..n |-> None(PatNames[i]) ], 20) :
              n \in 1..5, x \in {"", ", \"additionalProperties\": false", ", \"maxProperties\": 1", ", \"properties\": {\"p\": {\"const\": 1}, \"q\": {}}", ", \"properties\": {\"p\": {\"const\": 1}}, \"required\": [\"p\"], \"minProperties\": 1, \"maxProperties\": 2"} }

(* Lengths                                                                     *)
Length(n) == "{\"minItems\": " \o Str(n) \o ", \"maxItems\": " \o Str(n) \o "}"
Lengths(lo, hi) == [ i \in 1..(hi - lo + 1) |-> Length(lo + i - 1) ]
ArrSchema(body, lo, hi) == "{\"type\": \"array\", " \o body \o (IF lo = 0 THEN "" ELSE ", \"minItems\": " \o Str(lo)) \o ", \"maxItems\": " \o Str(hi) \o "}"
Max2(a, b) == IF a > b THEN a ELSE b
Arrays == { C(ArrSchema("\"items\": {\"type\": \"boolean\"}", p[1], p[1] + p[2]), Lengths(p[1], p[1] + p[2]), p[1] + p[2] + 1) : p \in (0..3) \X (0..4) }
    \cup { C(ArrSchema("\"uniqueItems\": true, \"items\": {\"type\": \"integer\", \"minimum\": 0, \"maximum\": 1000}", p[1], p[1] + p[2]), Lengths(p[1], p[1] + p[2]), p[1] + p[2] + 2) : p \in (0..3) \X (0..3) }
    \cup { C(ArrSchema("\"prefixItems\": [{\"type\": \"null\"}, {\"type\": \"null\"}], \"items\": {\"type\": \"boolean\"}", p[1], p[2]), Lengths(Max2(2, p[1]), p[2]), p[2] + 1) : p \in (0..4) \X (4..6) }
    \cup { C(ArrSchema("\"contains\": {\"type\": \"null\"}, \"items\": {\"type\": [\"boolean\", \"null\"]}", p[1], p[1] + p[2]), Lengths(Max2(1, p[1]), p[1] + p[2]), p[1] + p[2] + 1) : p \in (0..2) \X (1..3) }
    \cup { C("{\"type\": \"array\", \"items\": {\"type\": \"boolean\"}}", Lengths(0, 10), 12),
           C("{\"type\": \"array\", \"items\": {\"enum\": [1, 2]}}", <<"{\"contains\": {\"const\": 1}}", "{\"contains\": {\"const\": 2}}">>, 3),
           C("{\"type\": \"array\", \"prefixItems\": [{\"type\": \"boolean\"}, {\"enum\": [1, 2]}], \"items\": false, \"minItems\": 2}", [ i \in 1..4 |-> <<Const("[true, 1]"), Const("[true, 2]"), Const("[false, 1]"), Const("[false, 2]")>>[i] ], 4),
           C("{\"type\": \"array\", \"contains\": {\"const\": 1}, \"minContains\": 1, \"items\": {\"enum\": [1, 2]}, \"maxItems\": 2}", Consts(<<"[1]", "[1, 1]", "[1, 2]">>), 8),
           C("{\"type\": \"array\", \"contains\": {\"const\": 1}, \"minContains\": 0, \"maxContains\": 1, \"items\": {\"enum\": [1, 2]}, \"maxItems\": 2}", <<Const("[]"), Const("[1]"), Const("[2]"), Const("[2, 2]")>>, 24),
           C("{\"type\": \"array\", \"minItems\": 3, \"maxItems\": 3, \"items\": {\"type\": \"boolean\"}}", Consts(<<"[true, true, true]", "[true, false, true]", "[false, false, false]">>), 8) }

(* Branches                                                                    *)
K == "{\"type\": \"object\", \"properties\": {\"k\": {\"const\": 1}}, \"required\": [\"k\"]}"
L == "{\"type\": \"object\", \"properties\": {\"l\": {\"const\": 1}}, \"required\": [\"l\"], \"not\": {\"required\": [\"k\"]}}"
Branchings == UNION { {
      C("{\"" \o w \o "\": " \o Lst(Tys(q)) \o "}", Tys(q), 2 * Len(q)) : q \in Seqs({ x \in SUBSET TypeNames : Cardinality(x) \in 1..3 /\ Apart(x) /\ x \cap {"number"} = {} /\ (Thorough \/ Cardinality(x) # 3) }) } : w \in {"anyOf", "oneOf"} }
    \cup UNION { {
      C("{\"" \o w \o "\": [{\"const\": 1}, {\"const\": 2}, {\"const\": 3}, {\"const\": 4}, {\"const\": 5}]}", Consts(<<"1", "2", "3", "4", "5">>), 5),
      C("{\"" \o w \o "\": [{\"const\": 1}]}", Consts(<<"1">>), 1),
      C("{\"" \o w \o "\": [{\"" \o v \o "\": [{\"const\": 1}, {\"const\": 2}]}, {\"" \o v \o "\": [{\"const\": 3}, {\"const\": 4}]}]}", Consts(<<"1", "2", "3", "4">>), 4),
      C("{\"type\": \"integer\", \"" \o w \o "\": [{\"maximum\": 1, \"minimum\": 0}, {\"minimum\": 5, \"maximum\": 6}]}", Consts(<<"0", "1", "5", "6">>), 4),
      C("{\"" \o w \o "\": [{\"enum\": [1, 2]}, {\"enum\": [3, \"y\"]}, {\"type\": \"null\"}]}", Consts(<<"1", "2", "3", "\"y\"", "null">>), 6),
      C("{\"allOf\": [{\"" \o w \o "\": [{\"const\": 1}, {\"const\": 2}]}]}", Consts(<<"1", "2">>), 2),
      C("{\"$ref\": \"#/$defs/d\", \"$defs\": {\"d\": {\"" \o w \o "\": [{\"const\": 1}, {\"$ref\": \"#/$defs/e\"}]}, \"e\": {\"" \o v \o "\": [{\"const\": 2}, {\"const\": 3}]}}}", Consts(<<"1", "2", "3">>), 4),
      C("{\"type\": \"object\", \"" \o w \o "\": [{\"properties\": {\"a\": {\"const\": 1}}, \"required\": [\"a\"], \"maxProperties\": 1}, {\"properties\": {\"b\": {\"const\": 2}}, \"required\": [\"b\"], \"maxProperties\": 1}]}", <<Const("{\"a\": 1}"), Const("{\"b\": 2}")>>, 2),
      C("{\"allOf\": [{\"" \o w \o "\": [{\"properties\": {\"a\": {\"const\": 1}}, \"required\": [\"a\"]}, {\"properties\": {\"a\": {\"const\": 2}}, \"required\": [\"a\"]}]}, {\"" \o v \o "\": [{\"properties\": {\"b\": {\"const\": 1}}, \"required\": [\"b\"]}, {\"properties\": {\"b\": {\"const\": 2}}, \"required\": [\"b\"]}]}]}",
        [ i \in 1..4 |-> "{\"properties\": {\"a\": {\"const\": " \o <<"1", "1", "2", "2">>[i] \o "}, \"b\": {\"const\": " \o <<"1", "2", "1", "2">>[i] \o "}}}" ], 4)
      } : w \in {"anyOf", "oneOf"}, v \in {"anyOf", "oneOf"} }
    \cup { C("{\"anyOf\": [{\"enum\": [1, 2]}, {\"enum\": [2, 3]}]}", Consts(<<"1", "2", "3">>), 4),
           C("{\"oneOf\": [{\"enum\": [1, 2]}, {\"enum\": [2, 3]}]}", Consts(<<"1", "3">>), 4),
           C("{\"type\": \"object\", \"properties\": {\"k\": {\"enum\": [1, 2]}}, \"required\": [\"k\"], \"if\": {\"properties\": {\"k\": {\"const\": 1}}}, \"then\": {\"properties\": {\"m\": {\"const\": 1}}, \"required\": [\"m\"]}, \"else\": {\"properties\": {\"m\": {\"const\": 2}}, \"required\": [\"m\"]}}",
             <<"{\"properties\": {\"k\": {\"const\": 1}}}", "{\"properties\": {\"k\": {\"const\": 2}}}">>, 4),
           C("{\"type\": \"string\", \"pattern\": \"^(a|b|cd)$\"}", Consts(<<"\"a\"", "\"b\"", "\"cd\"">>), 4),
           C("{\"type\": \"string\", \"pattern\": \"^[ab]{0,2}$\"}", Consts(<<"\"\"", "\"a\"", "\"b\"", "\"aa\"", "\"ab\"", "\"ba\"", "\"bb\"">>), 14),
           C("{\"type\": \"string\", \"pattern\": \"^x?y*$\"}", <<"{\"pattern\": \"^x\"}", "{\"not\": {\"pattern\": \"x\"}}", "{\"pattern\": \"y\"}", "{\"not\": {\"pattern\": \"y\"}}">>, 10) }

All == Enums \cup Types \cup Integers_ \cup Objects1 \cup Objects2 \cup Patterns \cup Arrays \cup Branchings
Nested == { EnumOf(<<"1", "2", "3">>), TypesOf(<<"null", "boolean">>), C("{\"type\": \"boolean\"}", Consts(<<"true", "false">>), 2), Num("integer", "minimum", 0, "maximum", 2, 1, 0..2),
            C(ObjSchema(2, 1, 0, 9, ", \"additionalProperties\": false"), Exactly(2, 1, 0, 9), 5), C(ArrSchema("\"items\": {\"type\": \"boolean\"}", 0, 2), Lengths(0, 2), 3),
            C("{\"anyOf\": [{\"const\": 1}, {\"const\": 2}]}", Consts(<<"1", "2">>), 2), C("{\"oneOf\": [{\"const\": 1}, {\"const\": 2}]}", Consts(<<"1", "2">>), 2) }
Places == {"property", "escaped", "pattern", "additional", "items", "prefix", "rest", "unevaluated", "any", "one", "all", "else", "definitions"}
(* Beneath a place that itself is a choice an offer is taken less often          *)
Cases == { [at |-> "root", c |-> c] : c \in All } \cup { [at |-> p, c |-> c] : p \in Places, c \in IF Thorough THEN { x \in All : x.den <= 12 } ELSE Nested }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "choice-" \o ToString(n), kind |-> "choice", extra |-> [at |-> S[n].at, schema |-> S[n].c.schema, covers |-> S[n].c.covers, den |-> S[n].c.den]] ])
=============================================================================
