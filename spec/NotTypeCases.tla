---------------------------- MODULE NotTypeCases ----------------------------
(* Negated lists of types, in many orders, alone, next to a list of types, in   *)
(* branches of allOf and referenced: values of every type that is left, and no  *)
(* others, are generated.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Quoted(t) == "\"" \o t \o "\""
Types == <<"object", "array", "number", "integer", "string", "boolean", "null">>
Names == { Types[i] : i \in DOMAIN Types }
Sorted(x) == SelectSeq(Types, LAMBDA t : t \in x)
Members(q) == { q[i] : i \in DOMAIN q }
Rotate(q, n) == SubSeq(q, n + 1, Len(q)) \o SubSeq(q, 1, n)
Orders(x) == LET q == Sorted(x) IN IF Cardinality(x) <= (IF Thorough THEN 4 ELSE 2) THEN SetToSeqs(x) ELSE UNION { { Rotate(q, n), Rotate(Reverse(q), n) } : n \in 0..(Len(q) - 1) }
ListOf(q) == IF Len(q) = 1 THEN Quoted(q[1]) ELSE "[" \o Join([ i \in DOMAIN q |-> Quoted(q[i]) ]) \o "]"
(* A number that is no integer has no type but number                           *)
Kinds == {"object", "array", "fraction", "integer", "string", "boolean", "null"}
Of(x) == { k \in Kinds : k \in x \/ (k \in {"fraction", "integer"} /\ "number" \in x) }
Seen(k) == IF k = "fraction" THEN "{\"type\": \"number\", \"not\": {\"type\": \"integer\"}}" ELSE "{\"type\": " \o Quoted(k) \o "}"
Shown(ks) == LET q == SetToSeq(ks) IN [ i \in DOMAIN q |-> Seen(q[i]) ]
(* What integers are left of numbers is a matter of chance where fractions are left *)
C(s, left) == [schema |-> s, covers |-> Shown(left \ (IF "fraction" \in left THEN {"integer"} ELSE {})), den |-> 16]
Not(q) == "\"not\": {\"type\": " \o ListOf(q) \o "}"
Lists == UNION { Orders(x) : x \in { y \in SUBSET Names : y # {} /\ Of(y) # Kinds } }
Alone == { C("{" \o Not(q) \o "}", Kinds \ Of(Members(q))) : q \in Lists }
Small == { q \in Lists : Len(q) \in {1, 2, 5} }
Rest(q) == Kinds \ Of(Members(q))
Next_ == { C("{\"type\": " \o ListOf(r) \o ", " \o Not(q) \o "}", Of(Members(r)) \ Of(Members(q))) :
             q \in Small, r \in { Sorted(x) : x \in { y \in SUBSET Names : Cardinality(y) \in (IF Thorough THEN {2, 3, 4} ELSE {3}) } } }
Both == { C("{\"allOf\": [{" \o Not(q) \o "}, {" \o Not(r) \o "}]}", Rest(q) \cap Rest(r)) : q \in { x \in Small : Len(x) <= 2 }, r \in { x \in Small : Len(x) <= (IF Thorough THEN 2 ELSE 1) } }
Referred == { C("{\"not\": {\"$ref\": \"#/$defs/n\"}, \"$defs\": {\"n\": {\"type\": " \o ListOf(q) \o "}}}", Rest(q)) : q \in Small }
Cases == { c \in Alone \cup Next_ \cup Both \cup Referred : c.covers # <<>> }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "not-type-" \o ToString(n), kind |-> "choice", extra |-> [at |-> "root", schema |-> S[n].schema, covers |-> S[n].covers, den |-> S[n].den]] ])
=============================================================================
