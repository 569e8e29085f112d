---------------------------- MODULE BranchCases ----------------------------
(* Arrays and objects that several branches describe together, where what one  *)
(* says by position or by name the other says of all that remain: tuples next  *)
(* to items, names (and patterns) next to additionalProperties. The worlds are *)
(* small: items and values are 1, 2 or 3 (0 is any other), so what each        *)
(* position and each name may hold is an intersection of sets.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Str(n) == ToString(n)
Key(k, v) == "\"" \o k \o "\": " \o v
Obj(q) == "{" \o Join(q) \o "}"
Whole == 0..3
Free == Whole
Closed == {}
Text(x) == IF Cardinality(x) = 1 THEN "{\"const\": " \o Str(CHOOSE n \in x : TRUE) \o "}"
           ELSE IF x = {2, 3} THEN "{\"enum\": [2, 3]}"
           ELSE "{\"type\": \"integer\", \"minimum\": " \o Str(Min(x)) \o ", \"maximum\": " \o Str(Max(x)) \o "}"
Rest(k, x) == IF x = Free THEN <<>> ELSE <<Key(k, IF x = Closed THEN "false" ELSE Text(x))>>

(* ------------------------------- arrays ------------------------------- *)
Tuples == {<<>>, <<{1, 2}>>, <<{2, 3}, {1, 2}>>}
Plain == [ tuple : Tuples, rest : {Free, Closed, {2, 3}, {1, 2, 3}} ]
Extras == {"none", "two", "most", "contains"}
Array(b, e) == Obj(<<Key("type", "\"array\"")>>
    \o (IF b.tuple = <<>> THEN <<>> ELSE <<Key("prefixItems", "[" \o Join([ i \in DOMAIN b.tuple |-> Text(b.tuple[i]) ]) \o "]")>>) \o Rest("items", b.rest)
    \o (CASE e = "none" -> <<>> [] e = "two" -> <<Key("minItems", "2")>> [] e = "most" -> <<Key("maxItems", "2")>> [] e = "contains" -> <<Key("contains", "{\"const\": 3}")>>))
At(b, i) == IF i <= Len(b.tuple) THEN b.tuple[i] ELSE b.rest
Holds(bs, i) == { n \in Whole : \A k \in DOMAIN bs : n \in At(bs[k], i) }
Ends == 4
\* as many positions as some branch describes, up to where one lets no item follow
Described(bs) == LET m == Max({ Len(bs[k].tuple) : k \in DOMAIN bs }) IN Max({0} \cup { i \in 1..m : \A j \in 1..i : \A k \in DOMAIN bs : j <= Len(bs[k].tuple) \/ bs[k].rest # Closed })
Shut(bs) == \E k \in DOMAIN bs : bs[k].rest = Closed
ArrayOk(bs, e) == LET n == Described(bs) IN
    /\ e = "two" /\ Shut(bs) => n >= 2
    /\ e = "contains" => ~Shut(bs) /\ 3 \in Holds(bs, Ends)
ArrayPairs == { m \in Plain \X Plain \X Extras : ArrayOk(<<m[1], m[2]>>, m[3]) }
ArrayThrees == { m \in Plain \X Plain \X Plain : TRUE }

(* ------------------------------- objects ------------------------------ *)
Names == <<"a", "b", "p">>
Named == [ a : {Free, {1, 2}, {2, 3}}, b : {Free, {2, 3}}, p : {Free, {1, 2}}, rest : {Free, Closed, {2, 3}} ]
\* Free says nothing of a name; p is described by a pattern
Own(b, n) == CASE n = "a" -> b.a [] n = "b" -> b.b [] n = "p" -> b.p
Value(b, n) == IF Own(b, n) # Free THEN Own(b, n) ELSE b.rest
Takes(bs, n) == { v \in Whole : \A k \in DOMAIN bs : v \in Value(bs[k], n) }
Object(b, required) == Obj(<<Key("type", "\"object\"")>>
    \o (LET q == SelectSeq(<<"a", "b">>, LAMBDA n : Own(b, n) # Free) IN IF q = <<>> THEN <<>> ELSE <<Key("properties", Obj([ i \in DOMAIN q |-> Key(q[i], Text(Own(b, q[i]))) ]))>>)
    \o (IF b.p = Free THEN <<>> ELSE <<Key("patternProperties", Obj(<<Key("^p$", Text(b.p))>>))>>)
    \o Rest("additionalProperties", b.rest) \o (IF required = "none" THEN <<>> ELSE <<Key("required", "[\"" \o required \o "\"]")>>))
Described2(bs, n) == \E k \in DOMAIN bs : Own(bs[k], n) # Free
Possible(bs) == SelectSeq(Names, LAMBDA n : Described2(bs, n) /\ Takes(bs, n) # {})
\* each name comes, with each of its values
HasValue(n, v) == "{\"required\": [\"" \o n \o "\"], \"properties\": {\"" \o n \o "\": {\"const\": " \o Str(v) \o "}}}"
Covers(bs) == LET q == Possible(bs) IN FlattenSeq([ i \in DOMAIN q |-> LET vs == SetToSeq(Takes(bs, q[i])) IN [ j \in DOMAIN vs |-> HasValue(q[i], vs[j]) ] ])
ObjectPairs == { m \in Named \X Named \X {"none", "a", "b", "p"} : /\ m[3] = "none" \/ Takes(<<m[1], m[2]>>, m[3]) # {}
                                                                   /\ Thorough \/ m[3] = "none" \/ (m[3] = "a") = (m[1].rest # Free) }

(* ------------------------------- schemas ------------------------------ *)
AllOf(q) == "{\"allOf\": [" \o Join(q) \o "]}"
Beside(x, y) == "{\"allOf\": [" \o y \o "], " \o SubSeq(x, 2, Len(x))
Refd(x, y) == "{\"allOf\": [{\"$ref\": \"#/$defs/x\"}, {\"allOf\": [{\"$ref\": \"#/$defs/y\"}]}], \"$defs\": {\"x\": " \o x \o ", \"y\": " \o y \o "}}"
OneOf(x, y) == "{\"anyOf\": [" \o y \o "], " \o SubSeq(x, 2, Len(x))
Forms(x, y) == IF Thorough THEN {AllOf(<<x, y>>), AllOf(<<y, x>>), Beside(x, y), Refd(x, y), OneOf(x, y)} ELSE {AllOf(<<x, y>>), Beside(y, x)}
C(s, cov, den) == [schema |-> s, covers |-> cov, den |-> den]
Cases == UNION { { C(s, <<>>, 1) : s \in Forms(Array(m[1], "none"), Array(m[2], m[3])) } : m \in ArrayPairs }
    \cup (IF Thorough THEN { C(AllOf(<<Array(m[1], "none"), Array(m[2], "none"), Array(m[3], "none")>>), <<>>, 1) : m \in ArrayThrees } ELSE {})
    \cup UNION { LET bs == <<m[1], m[2]>>
                     x == Object(m[1], "none")
                     y == Object(m[2], m[3]) IN { C(s, Covers(bs), 10) : s \in IF Thorough THEN Forms(x, y) ELSE {IF m[1].rest = Free \/ m[2].a = {1, 2} THEN Beside(y, x) ELSE AllOf(<<x, y>>)} } : m \in ObjectPairs }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "branch-" \o ToString(n), kind |-> "choice", extra |-> [at |-> "root", schema |-> S[n].schema, covers |-> S[n].covers, den |-> S[n].den]] ])
=============================================================================
