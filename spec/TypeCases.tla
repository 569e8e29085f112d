----------------------------- MODULE TypeCases -----------------------------
(* Every list of types, in every order of two of them, next to keywords of     *)
(* each type, to an enum with values of every type and to a const. A keyword   *)
(* restricts the values of its type alone and all listed types take part.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Str(n) == ToString(n)
Quoted(t) == "\"" \o t \o "\""
List(q) == "[" \o Join(q) \o "]"
Key(k, v) == "\"" \o k \o "\": " \o v

Types == <<"object", "array", "number", "integer", "string", "boolean", "null">>
Members(q) == { q[i] : i \in DOMAIN q }
Sorted(x) == SelectSeq(Types, LAMBDA t : t \in x)
Lists == { Sorted(x) : x \in SUBSET Members(Types) \ {{}} } \cup { <<s, t>> : s \in Members(Types), t \in Members(Types) } \cup { Reverse(Sorted(x)) : x \in { y \in SUBSET Members(Types) : Cardinality(y) > 2 } }
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Good == { q \in Lists : Distinct(q) }

\* keywords of one type each, with what a value of the type has to be
Groups == {"object", "array", "number", "string"}
Of(t) == CASE t = "object" -> <<Key("properties", "{\"a\": {\"const\": 1}}"), Key("required", "[\"a\"]")>>
           [] t = "array"  -> <<Key("items", "{\"enum\": [1, \"1\"]}"), Key("minItems", "2"), Key("maxItems", "3")>>
           [] t = "number" -> <<Key("minimum", "5"), Key("maximum", "9")>>
           [] t = "string" -> <<Key("minLength", "3"), Key("maxLength", "5")>>
RECURSIVE All(_)
All(g) == IF g = <<>> THEN <<>> ELSE Of(g[1]) \o All(Tail(g))
Keywords(x) == All(SelectSeq(<<"string", "object", "number", "array">>, LAMBDA t : t \in x))

Typed(q) == IF Len(q) = 1 THEN <<Key("type", Quoted(q[1]))>> ELSE <<Key("type", List([ i \in DOMAIN q |-> Quoted(q[i]) ]))>>
Obj(q) == "{" \o Join(q) \o "}"
\* numbers show by their fractions
Seen(t) == IF t = "number" THEN "{\"type\": \"number\", \"not\": {\"type\": \"integer\"}}" ELSE "{\"type\": " \o Quoted(t) \o "}"
C(s, cov, den) == [schema |-> s, covers |-> cov, den |-> den]

Listed == { C(Obj(Typed(q) \o Keywords(x)), [ i \in DOMAIN q |-> Seen(q[i]) ], 2 * Len(q)) : q \in Good, x \in IF Thorough THEN SUBSET Groups ELSE { y \in SUBSET Groups : Cardinality(y) \in {0, 1, 4} } }

\* values of each type, which of them the types admit
Values == <<"{}", "{\"a\": [1]}", "[]", "[null, 0]", "1.5", "-0.25", "0", "7", "\"\"", "\"7\"", "true", "false", "null">>
TypesOf == <<{"object"}, {"object"}, {"array"}, {"array"}, {"number"}, {"number"}, {"number", "integer"}, {"number", "integer"}, {"string"}, {"string"}, {"boolean"}, {"boolean"}, {"null"}>>
Left(q) == SelectSeq([ i \in DOMAIN Values |-> i ], LAMBDA i : TypesOf[i] \cap Members(q) # {})
Consts(ix) == [ i \in DOMAIN ix |-> "{\"const\": " \o Values[ix[i]] \o "}" ]
Enums == { C(Obj(Typed(q) \o <<Key("enum", List(Values))>>), Consts(Left(q)), 2 * Len(Left(q))) : q \in { r \in Good : Thorough \/ Len(r) <= 2 \/ Len(r) >= 6 } }
AllOfEnums == { C("{\"allOf\": [" \o Obj(Typed(q)) \o ", " \o Obj(<<Key("enum", List(Values))>>) \o "]}", Consts(Left(q)), 2 * Len(Left(q))) : q \in { r \in Good : Len(r) <= 2 } }
Consted == { C(Obj(Typed(r[1]) \o <<Key("const", Values[r[2]])>>), Consts(<<r[2]>>), 2) : r \in { s \in Good \X DOMAIN Values : Len(s[1]) \in {1, 2, 7} /\ TypesOf[s[2]] \cap Members(s[1]) # {} } }
(* One value next to a list of values, in either place                          *)
Lone(i) == <<Values[i]>>
Mixed == { C(Obj(<<Key("enum", List(l)), Key("const", Values[i])>>), Consts(<<i>>), 2) : i \in DOMAIN Values, l \in {Values, Reverse(Values)} }
    \cup { C(Obj(<<Key("enum", List(Lone(i))), Key("const", Values[i])>>), Consts(<<i>>), 2) : i \in DOMAIN Values }
    \cup { C(Obj(<<Key("const", Values[i])>>), Consts(<<i>>), 2) : i \in DOMAIN Values } \cup { C(Obj(<<Key("enum", List(Lone(i)))>>), Consts(<<i>>), 2) : i \in DOMAIN Values }
    \cup { C(Obj(<<Key("enum", List(<<Values[i], Values[j]>>))>>), Consts(<<i, j>>), 4) : i \in DOMAIN Values, j \in DOMAIN Values }

Cases == Mixed \cup Listed \cup Enums \cup AllOfEnums \cup Consted
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "type-" \o ToString(n), kind |-> "choice", extra |-> [at |-> "root", schema |-> S[n].schema, covers |-> S[n].covers, den |-> S[n].den]] ])
=============================================================================
