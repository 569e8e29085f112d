---------------------------- MODULE UntypedCases ----------------------------
(* Schemas without a type: every keyword alone, every two keywords of a type,  *)
(* one keyword each of two types, and no keyword that implies a type at all,   *)
(* at every place. What is implied: a contract the values have to satisfy      *)
(* besides the schema, or that every type is on offer (covers).                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

K(t, k, v) == [type |-> t, key |-> k, text |-> v]
Implying == {
    K("object", "properties", "{\"a\": {\"type\": \"null\"}}"), K("object", "properties", "{}"), K("object", "required", "[\"a\"]"), K("object", "minProperties", "1"), K("object", "maxProperties", "3"), K("object", "maxProperties", "0"),
    K("object", "patternProperties", "{\"^a$\": {\"type\": \"null\"}}"), K("object", "additionalProperties", "{\"type\": \"null\"}"),
    K("string", "minLength", "2"), K("string", "minLength", "0"), K("string", "maxLength", "4"), K("string", "maxLength", "0"), K("string", "pattern", "\"^a{2,4}$\""), K("string", "format", "\"date\""),
    K("number", "minimum", "3"), K("number", "minimum", "0"), K("number", "maximum", "7"), K("number", "maximum", "0"), K("number", "exclusiveMinimum", "2.5"), K("number", "exclusiveMaximum", "7.5"), K("number", "multipleOf", "0.5"), K("number", "multipleOf", "2"),
    K("array", "items", "{\"type\": \"null\"}"), K("array", "items", "{}"), K("array", "prefixItems", "[{\"type\": \"null\"}]"), K("array", "minItems", "2"), K("array", "maxItems", "3"), K("array", "minItems", "0"), K("array", "maxItems", "0"),
    K("array", "contains", "{\"type\": \"null\"}"), K("array", "unevaluatedItems", "{\"type\": \"null\"}") }
Quiet == { K("", "title", "\"t\""), K("", "description", "\"d\""), K("", "default", "3"), K("", "examples", "[1]"), K("", "$comment", "\"c\""), K("", "deprecated", "true"), K("", "uniqueItems", "true"), K("", "uniqueItems", "false"), K("", "additionalProperties", "true") }

(* A pattern next to a format or a length is not supported, nor is a count     *)
(* that is already exceeded, or a minimum that rules out what is there          *)
Together(a, b) ==
    /\ a.key # b.key
    /\ ~(({a.key, b.key} \cap {"pattern", "format"}) # {} /\ {a.key, b.key} \cap {"pattern", "format", "minLength", "maxLength"} = {a.key, b.key})
    /\ ~(a.text = "0" /\ a.key \in {"maxProperties", "maxLength", "maxItems", "maximum"} /\ b.type = a.type)
    /\ ~(b.text = "0" /\ b.key \in {"maxProperties", "maxLength", "maxItems", "maximum"} /\ b.type = a.type)
Singles == { {a} : a \in Implying }
Doubles == { {p[1], p[2]} : p \in { q \in Implying \X Implying : Together(q[1], q[2]) } }
(* What a set of keywords implies                                              *)
TypesOf(ks) == { k.type : k \in ks } \ {""}

Places == {"root", "property", "escaped", "pattern", "additional", "items", "prefix", "rest", "unevaluated", "any", "one", "all", "then", "else", "defs", "definitions"}
AllTypes == <<"null", "boolean", "integer", "number", "string", "array", "object">>

Case(ks, p) == [at |-> p, keys |-> SetToSeq(ks), type |-> IF Cardinality(TypesOf(ks)) = 1 THEN CHOOSE t \in TypesOf(ks) : TRUE ELSE "",
                offers |-> IF TypesOf(ks) = {} THEN AllTypes ELSE <<>>]
Cases == { Case(ks, "root") : ks \in Singles \cup Doubles }
    \cup { Case(ks, p) : ks \in Singles \cup (IF IOEnv.TIER = "thorough" THEN Doubles ELSE {}), p \in Places }
    \cup { Case({}, p) : p \in Places } \cup { Case({q}, "root") : q \in Quiet } \cup { Case({q, r}, p) : q \in {K("", "title", "\"t\"")}, r \in Implying, p \in {"root", "items"} }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "untyped-" \o ToString(n), kind |-> "untyped", extra |-> S[n]] ])
=============================================================================
