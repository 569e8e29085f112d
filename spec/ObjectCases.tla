---------------------------- MODULE ObjectCases ----------------------------
(* Every combination of the keywords of an object that some object satisfies:  *)
(* properties, names that are required (with and without a schema of their     *)
(* own, or one of a pattern), patternProperties, each form of                  *)
(* additionalProperties and the counts.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Str(n) == ToString(n)
None == -1

Names == <<"a", "b", "c", "p1", "p2">>  \* the pattern has p0 to p9
Sets(x) == IF Thorough THEN SUBSET x ELSE { y \in SUBSET x : Cardinality(y) <= 2 }
Shapes == [ properties : SUBSET {"a", "b"}, required : Sets({"a", "b", "c", "p1", "p2"}), pattern : {"none", "some", "two"}, additional : {"none", "true", "false", "schema"},
            lo : IF Thorough THEN {None, 0, 1, 2, 3, 4, 6} ELSE {None, 1, 3}, hi : IF Thorough THEN {None, 0, 1, 2, 3, 4, 6} ELSE {None, 0, 2, 3} ]

Patterned(s) == IF s.pattern = "none" THEN {} ELSE {"p1", "p2"}
Plenty == 20
\* how many different names there can be
Room(s) == IF s.additional # "false" THEN Plenty ELSE Cardinality(s.properties) + (IF s.pattern = "none" THEN 0 ELSE IF s.pattern = "some" THEN 10 ELSE 20)
Satisfiable(s) ==
    /\ s.additional = "false" => s.required \subseteq (s.properties \cup Patterned(s))
    /\ s.hi = None \/ Cardinality(s.required) <= s.hi
    /\ s.lo = None \/ s.lo <= Room(s)
    /\ s.lo = None \/ s.hi = None \/ s.lo <= s.hi

Key(k, v) == "\"" \o k \o "\": " \o v
Num(k, n) == IF n = None THEN <<>> ELSE <<Key(k, Str(n))>>
Own(n) == IF n = "a" THEN "{\"const\": \"A\"}" ELSE "{\"type\": \"integer\", \"minimum\": 1, \"maximum\": 3}"
Listed(x) == SelectSeq(Names, LAMBDA n : n \in x)
Quote(q) == [ i \in DOMAIN q |-> "\"" \o q[i] \o "\"" ]
Obj(q) == "{" \o Join(q) \o "}"
Schema(s) == Obj(<<Key("type", "\"object\"")>>
    \o (IF s.properties = {} THEN <<>> ELSE <<Key("properties", LET q == Listed(s.properties) IN Obj([ i \in DOMAIN q |-> Key(q[i], Own(q[i])) ]))>>)
    \o (IF s.required = {} THEN <<>> ELSE <<Key("required", "[" \o Join(Quote(Listed(s.required))) \o "]")>>)
    \o (IF s.pattern = "none" THEN <<>> ELSE <<Key("patternProperties", Obj(<<Key("^p[0-9]$", "{\"const\": \"P\"}")>> \o (IF s.pattern = "two" THEN <<Key("^q[0-9]$", "{\"const\": \"Q\"}")>> ELSE <<>>)))>>)
    \o (IF s.additional = "none" THEN <<>> ELSE <<Key("additionalProperties", IF s.additional = "schema" THEN "{\"type\": \"boolean\"}" ELSE s.additional)>>)
    \o Num("minProperties", s.lo) \o Num("maxProperties", s.hi))

\* an optional name comes and stays away where the counts leave room for both
Free(s) == { n \in s.properties \ s.required : s.hi = None \/ Cardinality(s.required) < s.hi }
Spare(s) == (s.lo = None \/ s.lo <= Cardinality(s.required)) /\ s.hi = None
Covers(s) == LET q == Listed(Free(s)) IN
    [ i \in DOMAIN q |-> "{\"required\": [\"" \o q[i] \o "\"]}" ] \o (IF Spare(s) THEN [ i \in DOMAIN q |-> "{\"properties\": {\"" \o q[i] \o "\": false}}" ] ELSE <<>>)

All == { [schema |-> Schema(s), covers |-> Covers(s)] : s \in { x \in Shapes : Satisfiable(x) } }
S == SetToSeq(All)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "object-" \o ToString(n), kind |-> "choice", extra |-> [at |-> "root", schema |-> S[n].schema, covers |-> S[n].covers, den |-> IF S[n].covers = <<>> THEN 1 ELSE 6]] ])
=============================================================================
