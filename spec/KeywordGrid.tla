---------------------------- MODULE KeywordGrid ----------------------------
(* Every keyword x a value of every kind JSON has x every place a schema can  *)
(* be written at, and every pair of keywords with such values at the root:    *)
(* whatever is written there, parsing ends with a generator or an error.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Keywords == {"type", "length", "properties", "additionalProperties", "patternProperties", "minProperties", "maxProperties", "required",
    "pattern", "format", "minLength", "maxLength", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
    "items", "minItems", "maxItems", "contains", "minContains", "maxContains", "prefixItems", "additionalItems", "unevaluatedItems", "uniqueItems",
    "enum", "const", "not", "allOf", "anyOf", "oneOf", "$ref", "$id", "$defs", "definitions", "if", "then", "else",
    "dependentRequired", "dependentSchemas", "unevaluatedProperties", "propertyNames", "$schema", "$anchor", "$dynamicRef", "default", "title"}

(* A value of every kind (written as text: the harness joins the text).        *)
Values == {"null", "true", "false", "0", "1", "-1", "3", "0.5", "-2.5e300", "1e400", "9223372036854775808", "1e19", "\"\"", "\"string\"", "\"integer\"", "\"#\"", "\"#/properties/k\"", "\"#/nope\"",
    "\"^(a|\"", "\"^[a-c]{2,3}$\"", "\"date\"", "\"nonsense\"", "\"http://127.0.0.1:1/x.json\"", "[]", "{}", "[null]", "[\"a\"]", "[1, \"a\", null, [], {}]", "[{}]", "[{\"type\": \"string\"}, {\"type\": 3}]", "[{\"minimum\": 1}, false]",
    "{\"a\": null}", "{\"a\": {\"type\": \"null\"}}", "{\"a\": []}", "{\"type\": \"string\"}", "{\"type\": [\"integer\", \"null\"]}", "{\"type\": []}", "{\"$ref\": \"#\"}", "{\"(\": {\"type\": \"null\"}}", "{\"not\": {}}", "{\"const\": 1}", "[\"type\"]", "[\"string\", \"null\"]", "[[\"a\"]]", "[\"a\", \"a\"]"}

Places == {"root", "property", "items", "prefixItems", "legacy", "additionalProperties", "patternProperties", "contains", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "defs", "unevaluatedItems"}

Grid == { [k |-> <<k>>, v |-> <<v>>, at |-> p] : k \in Keywords, v \in Values, p \in Places }

(* For pairs the kinds matter, not all of their values                         *)
Few == {"null", "0", "-1", "\"string\"", "[]", "{}", "[{}]", "true", "2", "{\"a\": {\"type\": \"null\"}}"}
Of(cs, base) == [ n \in DOMAIN cs |-> [id |-> base \o ToString(n), kind |-> "robust", extra |-> cs[n]] ]
Ks == SetToSeq(Keywords)
PairSeq == LET fs == SetToSeq(Few) nf == Len(fs) IN
    IF IOEnv.TIER = "thorough"
    THEN FlattenSeq([ i \in DOMAIN Ks |-> FlattenSeq([ j \in DOMAIN Ks |-> IF i < j THEN [ n \in 1..(nf * nf) |-> [k |-> <<Ks[i], Ks[j]>>, v |-> <<fs[((n-1) \div nf) + 1], fs[((n-1) % nf) + 1]>>, at |-> "root"]] ELSE <<>> ]) ])
    ELSE FlattenSeq([ i \in DOMAIN Ks |-> FlattenSeq([ j \in DOMAIN Ks |-> IF i < j THEN [ n \in 1..nf |-> [k |-> <<Ks[i], Ks[j]>>, v |-> <<fs[n], fs[((n * 7 + i + j) % nf) + 1]>>, at |-> "root"]] ELSE <<>> ]) ])
(* Numbers at the ends of what a float64 holds, with each other                *)
Extremes == {"0", "-0.0", "5e-324", "-1e-300", "1e-14", "1e-10", "0.001", "0.1", "3", "-7.5", "1e15", "9007199254740993", "-9223372036854775808", "9223372036854775807", "1e19", "1e100", "-1e300", "1e300", "1.7e305", "-1.7e308", "1.7976931348623157e308"}
Bounds == <<"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf">>
ExtremePairs == { [k |-> <<"type", Bounds[i], Bounds[j]>>, v |-> <<t, a, b>>, at |-> "root"] :
    t \in {"\"integer\"", "\"number\""}, i \in 1..5, j \in 1..5, a \in Extremes, b \in Extremes } 
ExtremeTriples == { [k |-> <<"type", "minimum", "maximum", "multipleOf">>, v |-> <<t, a, b, m>>, at |-> "root"] :
    t \in {"\"integer\"", "\"number\""}, a \in Extremes, b \in Extremes, m \in Extremes }
ExtremeGrid == { c \in ExtremePairs : c.k[2] # c.k[3] /\ (IOEnv.TIER = "thorough" \/ (c.v[1] = "\"number\"" /\ c.k[3] = "multipleOf")) }
    \cup { c \in ExtremeTriples : IOEnv.TIER = "thorough" \/ (c.v[4] \in {"1e-14", "0.001", "1e300"} /\ c.v[2] \in {"-1e300", "-1.7e308", "1e300", "-1e-300"}) }
ExtremeBranches == { [k |-> <<"type", Bounds[i], Bounds[j]>>, v |-> <<t, a, b>>, at |-> "branches"] :
    t \in {"\"integer\"", "\"number\""}, i \in {1, 4, 5}, j \in {5}, a \in Extremes, b \in Extremes } 
GridQuick == { c \in Grid : IOEnv.TIER = "thorough" \/ c.at \in {"root", "property", "allOf", "not", "oneOf", "if"} }
ASSUME ndJsonSerialize(IOEnv.OUT, Of(SetToSeq(GridQuick), "grid-") \o Of(PairSeq, "pair-") \o Of(SetToSeq(ExtremeGrid \cup ExtremeBranches), "extreme-"))
=============================================================================
